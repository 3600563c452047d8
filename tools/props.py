"""Source of properties.jsonl and MANIFEST.json (see tools/gen.py)."""

B = "dustmaker/bitio.py"
R = "dustmaker/dfreader.py"
W = "dustmaker/dfwriter.py"
V = "dustmaker/variable.py"
L = "dustmaker/level.py"
T = "dustmaker/tile.py"
E = "dustmaker/entity.py"
P = "dustmaker/prop.py"
X = "dustmaker/transform.py"
RP = "dustmaker/replay.py"
CV = "dustmaker/cmd/variables.py"
CT = "dustmaker/cmd/transform.py"
CTH = "dustmaker/cmd/thumbnail.py"
CC = "dustmaker/cmd/common.py"
CS = "dustmaker/cmd/save_convert.py"

PROPS = []


def prop(pid, title, statement, over, qtext, why, files, mech, observe=None, note=None):
    PROPS.append({
        "id": pid, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                    **({"observe_at": observe} if observe else {})},
        "_note": note or "",
    })


prop("C01", "Bit streams give back exactly what was written",
     "Any sequence of integers (unsigned, or signed when read as signed) and byte blocks written to a bit stream, each "
     "of any bit width and starting at any bit alignment, is read back with the same values by reading the same widths "
     "in the same order. The data written never disturbs neighbouring fields.",
     ["inputs", "programs"],
     "all values of every width, every alignment, every signedness",
     "The tests read and write a few fixed literals; the value space of one 32 bit field at 8 alignments is already out "
     "of reach of examples.",
     [B], [("BitIOReader.read", B), ("BitIOWriter.write", B), ("read_bytes / write_bytes", B)])

prop("C02", "Bits are laid out least-significant first, little-endian",
     "Bit k of a field written at stream bit position p is stored in bit (p+k) mod 8 of byte (p+k) div 8, for values "
     "(two's complement when negative) and byte blocks alike, and reading uses the same layout; padding bits are zero. "
     "This is the layout the game uses, so files are interchangeable with it.",
     ["inputs"], "all values, widths and bit positions",
     "A consistent change of layout in both reader and writer passes every round-trip test; only the few fixed byte "
     "strings in the tests pin the layout.",
     [B], [("BitIOReader.read", B), ("BitIOWriter.write", B)])

prop("C03", "Reader positioning is exact",
     "After any mix of reads, absolute seeks, relative skips (forwards or backwards) and alignment, the reported bit "
     "position is exact and the next read yields the bits stored at that position. Alignment moves forward to the next "
     "byte boundary and no further.",
     ["programs", "inputs"], "every sequence of reading and positioning operations over arbitrary stream content",
     "Tests use a couple of straight-line sequences; the buffered lead byte makes behaviour depend on the history.",
     [B], [("BitIOReader.bit_seek / skip / align / bit_tell", B)])

prop("C04", "Writer positioning and finalisation lose nothing",
     "Under any mix of writes, alignment, flushes and seeks, the finished stream is exactly the overlay of the written "
     "fields in order, each placed at the position reported when it was written, with no bits lost, duplicated or left "
     "unflushed when the stream is closed. Seeking to a position inside a byte is refused unless explicitly allowed, "
     "in which case the earlier bits of that byte become zero and nothing else changes.",
     ["programs", "inputs"], "every sequence of write and positioning operations, all values",
     "Depends on the history of partially filled bytes; tests exercise single patterns.",
     [B], [("BitIOWriter.write / flush / align / bit_seek / close", B)])

prop("C05", "Identifier strings survive and invalid ones are refused",
     "Every string of up to 63 characters over the 64 character alphabet (digits, letters, underscore, opening brace) "
     "is read back unchanged from its 6 bits per character encoding at any alignment. Longer strings and strings with "
     "any other character are refused with a value error rather than stored wrongly.",
     ["inputs"], "all strings within the alphabet and all strings with a foreign character",
     "64^63 strings; the tests cover two.",
     [R, W], [("read_6bit_str", R), ("write_6bit_str", W)])

prop("C06", "Fixed-point numbers survive exactly",
     "Every number that is a multiple of the resolution of a fixed-point field and lies in its range - negative, zero, "
     "fractional or integral - is read back exactly as written, in every field format the file formats use.",
     ["inputs"], "all representable values of each fixed-point format",
     "Sign, integer and fraction are stored separately with floor semantics; errors show only for particular "
     "combinations such as negative fractions.",
     [R, W], [("read_float", R), ("write_float", W)])

prop("C07", "Variable trees survive with their types",
     "Any tree of variables (booleans, signed and unsigned integers, floats, strings, vectors, arrays of any element "
     "type, structs), nested in any way, is read back with the same types, values, element types, member names and "
     "order, and the stored encoding is the game's: type tags, lengths and terminators where the game expects them.",
     ["inputs"], "all tree shapes and all leaf values and names",
     "Tests use a handful of concrete trees.",
     [R, W, V], [("read_variable", R), ("write_variable", W)])

prop("C08", "Strings beyond one chunk are split and rejoined",
     "A string variable of any length, as struct member or array element, is read back byte for byte, although the "
     "format stores at most 65535 bytes per entry and continues longer strings in further entries. Neighbouring "
     "members or elements are unaffected, including when the length is an exact multiple of the chunk size.",
     ["inputs"], "all lengths around chunk boundaries, all bytes there",
     "Needs strings of 65534 bytes and more with exact boundary lengths; tests use one or two lengths.",
     [R, W], [("read_variable string continuation", R), ("write_variable string continuation", W)])

prop("C09", "Variable files survive and declare their true size",
     "A variable map written as a file with any header is read back unchanged using the same header, and the size "
     "recorded in the file is its actual size in bytes. Reading with a header that does not match is refused with the "
     "library's parse error.",
     ["inputs"], "all headers and variable maps, any starting byte offset in the stream",
     "Tests read sample files only.",
     [R, W], [("read_var_file", R), ("write_var_file", W)])

prop("C10", "Tiles survive saving a level",
     "Every tile, at any position and layer, in the foreground or in the backdrop, is read back at the same place with "
     "the same shape, flags, sprite and edge data, and - on the collision layer, for tiles that carry filth - the same "
     "filth data; no other tiles appear. This holds however tiles are spread over segments, regions and layers.",
     ["inputs"], "all tile attributes, all positions, arbitrary distributions over segments, regions, layers",
     "Tests round-trip two sample maps and some hand-picked tiles.",
     [R, W, T, L], [("_write_segment tiles", W), ("read_segment tiles", R), ("Tile._pack_tile_data", T),
                    ("_compute_region_map", W)])

prop("C11", "Props survive saving a level",
     "Every prop, at any position, with any id, layer, rotation, flips, palette and any of the sizes the format can "
     "represent, is read back with the same id, layer and attributes and its position truncated to whole pixels; no "
     "other props appear. Foreground and backdrop props stay in their own world.",
     ["inputs"], "all attribute values, ids and positions; several props in the same or different segments",
     "Tests round-trip sample maps.",
     [R, W, P], [("_write_segment props", W), ("read_segment props", R), ("_compute_region_map", W)])

prop("C12", "Entities survive saving a level",
     "Every entity, of any registered or unregistered type and any legal type name including those stored in the "
     "extended name table, is read back under the same id, at the same position to the format's resolution, with the "
     "same class, rotation, layer, flips, visibility and variables; no other entities appear.",
     ["inputs"], "all attribute values, ids, positions and type names; mixes of plain and extended names",
     "Tests round-trip sample maps, which hold few extended names and never interleave them.",
     [R, W, E], [("_write_segment entities", W), ("read_segment entities", R), ("Entity._from_raw", E)])

prop("C13", "Levels survive as a whole",
     "A level with any variables, any thumbnail bytes and any mix of foreground and backdrop content is read back the same "
     "in all these parts, wherever in a stream it starts, and several levels written after each other are read back one by "
     "one. Reading only the metadata gives the same variables and thumbnail and no content.",
     ["inputs"], "all metadata values, thumbnail bytes, content mixes, stream offsets",
     "The region directory starts at an arbitrary bit alignment depending on the variables; tests use a few sample files.",
     [R, W, L], [("read_level_ex", R), ("write_level_ex", W), ("read_metadata", R), ("write_metadata", W)])

prop("C14", "Metadata edits carry the level content over byte for byte",
     "Reading a level's metadata together with its raw region data and writing it back with other variables or another "
     "thumbnail leaves tiles, props and entities exactly as they were, whatever the sizes of old and new metadata. The "
     "result is a well-formed level.",
     ["inputs"], "all old and new metadata values and sizes, all region contents",
     "Offsets must be rebased for every combination of old and new metadata sizes and alignments.",
     [R, W], [("read_level_ex", R), ("write_level_ex", W)])

prop("C15", "Level files have the layout the game expects",
     "The bytes written for a level are exactly those of the game's format: header, sizes, counts, region directory, "
     "region headers, segment flags, and every field of every tile, filth, prop and entity entry at its place and width. "
     "Tiles are assigned to segments and regions by the floor of their coordinates, also for negative ones.",
     ["inputs"], "all content values, positions and metadata",
     "A change made consistently in reader and writer passes round-trip tests but makes the game reject the file.",
     [W, R], [("write_level_ex", W), ("_write_region", W), ("_write_segment", W)])

prop("C16", "Filth totals recorded in a level match its content",
     "For every segment the recorded totals are right: filth edges without spikes, enemy filth as the sum of what each enemy "
     "carries, solid visible collision edges without spikes, and dust blocks, all counted on the collision layer only. The "
     "game uses these totals to decide when a level is complete.",
     ["inputs"], "all tiles' edge flags, filth, sprites, entity types and distributions over segments",
     "Round-trip tests ignore these derived counters altogether.",
     [W, E, T], [("_write_segment", W), ("Tile.is_dustblock", T), ("Enemy.filth", E)])

prop("C17", "Replays survive writing and reading",
     "Any replay the format can hold - any players, input streams of any length and content, runs of any length, "
     "synchronised entity frames, user name, level name and frame count - is read back with the same content for every "
     "supported version, wherever in a stream it starts. Inputs past the end of a stream keep reading as the neutral value.",
     ["inputs"], "all stream contents and lengths, all run lengths, all header values and versions",
     "Tests round-trip a few sample replays; run splitting depends on the exact run length.",
     [RP, R, W], [("write_replay", W), ("read_replay", R), ("IntentStream", RP), ("PlayerData.get_intent_value", RP)])

prop("C18", "Replay files have the layout the game uses",
     "The bytes written for a replay are those of the game's format: header, player and character bytes, per stream a size, "
     "initial value and run-length coded values of the stream's bit width, and the entity correction block, and any file of that format is "
     "decoded accordingly. This holds for each supported version.",
     ["inputs"], "all field values, run structures and versions",
     "A consistent change in reader and writer passes round-trip tests but breaks exchange with the game.",
     [RP, R, W], [("write_replay", W), ("read_replay", R), ("_write_intent", W), ("_read_intent", R)])

prop("C19", "Transformation matrices form the affine group",
     "Products, translations, scalings and points sampled through a matrix agree with affine algebra: (A*B) applied to a "
     "point is A applied to B applied to it, translation adds to the offset, and the derived determinant, flip and scale "
     "describe the matrix. The rotation and flip constants are the clockwise quarter turns and mirror images they are named for.",
     ["inputs"], "all matrix entries, offsets and points",
     "Tests use products of the constants without offsets only.",
     [X], [("TxMatrix.__mul__", X), ("TxMatrix.translate", X), ("TxMatrix.sample", X), ("constants", X)])

prop("C20", "Transforming a tile moves its outline and edges together",
     "After a tile is transformed by any mix of quarter turns, mirror images, translations and whole scalings, its shape is the transformed "
     "outline and every edge's data (solid, visible, filth, spikes, caps, angles) sits on the image of that edge, with caps and "
     "angles exchanged and negated under mirror images. Sprites and flags are kept, and the inverse transformation restores the tile.",
     ["inputs"], "all 21 shapes, all 8 orientations, all edge data",
     "Tests check a few shapes with hand-written edges.",
     [T, X], [("Tile.transform", T), ("SHAPE_VERTEXES", T)])

prop("C21", "Upscaling a tile enlarges its outline and edges exactly",
     "The tiles produced by upscaling a tile by any factor cover exactly the enlarged outline, each with the original's "
     "sprite, and every edge on the enlarged outline carries the original edge's data with caps only at its ends; "
     "edges inside the outline are neither solid nor visible.",
     ["inputs"], "all shapes, factors, edge data",
     "Tests compare counts for a few shapes and factors.",
     [T], [("Tile.upscale", T)])

prop("C22", "Transforming a level is one rigid motion of its content",
     "Tiles, props, entities and player starts all move under the same map: tile centers, prop, entity and start positions are the images of "
     "their old ones, nothing is lost or duplicated, and orientation follows, so that sequences of transformations compose and inverses restore the level. "
     "The convenience methods (translate, rotate, flip, upscale) are the maps they are named for.",
     ["inputs", "programs"], "all contents, positions, orientations and sequences of maps",
     "Tests never transform a level.",
     [L, E, P, X], [("Level.transform", L), ("Level.upscale / translate / rotate / flip_*", L), ("Prop.transform", P),
                    ("Entity.transform", E)])

prop("C23", "Positions and sizes stored inside entities move with the level",
     "When a level is transformed, trigger areas of checkpoints and end zones, controller way points, last known key "
     "positions, death zone and camera sizes and hit box related values are mapped along with it, and other entity variables are left alone. This holds "
     "whether the data is present or absent and survives saving the level.",
     ["inputs"], "all stored values, list lengths and axis-aligned maps",
     "Tests have no entity transformations.",
     [E, L], [("CheckPoint.transform", E), ("AIController.transform", E), ("DeathZone.transform", E),
              ("CameraNode.transform", E)])

prop("C24", "Calculated edge visibility follows the documented rules",
     "calculate_edge_visibility marks exactly the documented edges solid and visible: missing edges are neither, non-flush edges and "
     "edges without a flush counterpart on the same layer are both, and shared edges are hidden between equal sprites and otherwise "
     "left to the callback or the default (bottom and right). Solid implies visible.",
     ["inputs"], "all shapes, sprites, neighbourhoods, previous edge data and callbacks",
     "Tests cover a handful of arrangements.",
     [L, T], [("Level.calculate_edge_visibility", L)])

prop("C25", "Calculated edge caps and join angles follow the documented rules",
     "calculate_edge_caps sets caps, angles, filth caps and filth angles of every edge as documented: invisible edges and edges ending inside "
     "a tile have none, an edge with no joining edge of the same sprite and side is capped, and otherwise the angle is half the "
     "turn towards the joining edge that leads most away, rounded down. Filth caps follow filth type and spikes.",
     ["inputs"], "all shapes, sprites, visibility and filth around a corner",
     "Tests cover a handful of arrangements.",
     [L, T], [("Level.calculate_edge_caps", L)])

prop("C26", "Automatically assigned ids are never in use",
     "However a level came about - explicit ids, reading a file, merging, remapping, recomputing the maximum - an item added without an id "
     "gets a fresh one of at least the reserved minimum, in the foreground and the backdrop alike. Adding under an id that is taken "
     "raises LevelException and changes nothing.",
     ["programs", "inputs"], "all ids and sequences of operations",
     "Id clashes depend on the history of the level; tests add a few items.",
     [L], [("Level._gen_id", L), ("Level._note_id", L), ("Level.calculate_max_id", L), ("Level.remap_ids", L), ("Level.merge", L)])

prop("C27", "Remapping and merging keep content and references intact",
     "After remapping ids or merging levels, every tile, prop and entity is present unchanged (on the same tile position the "
     "merged-in tile wins), and every stored reference from one entity to another still leads to the same entity; references to nothing lead to nothing "
     "after remapping. The merged-in level is left alone and shares nothing with the result.",
     ["inputs", "programs"], "all ids, references and contents",
     "Tests have no merges with references.",
     [L, E], [("Level.merge", L), ("Level.remap_ids", L), ("Entity.remap_ids", E)])

prop("C28", "Equality and hashing agree with content",
     "Two variables, and two tiles, compare equal exactly when their type and content are equal, equality is an equivalence, "
     "and equal objects have equal hashes. Values of different variable types are never equal, even when "
     "their numbers are.",
     ["inputs"], "all contents, and all pairs and triples of objects",
     "Tests compare a few literals for equality; hash consistency is a relation between all pairs.",
     [V, T], [("Variable.__eq__ / __hash__", V), ("Tile.__eq__ / __hash__", T)])

prop("C29", "Variable arrays behave as lists and variables reject unfit values",
     "Every sequence of list operations on a variable array has the effect it has on a plain Python list, and never lets an "
     "element of a foreign type in. Constructing or assigning a variable with a value of the wrong type or "
     "range is rejected rather than stored.",
     ["programs", "inputs"], "all values, indices and operation sequences",
     "Tests do a few appends and index reads.",
     [V], [("VariableArray", V), ("Variable*.assert_types", V)])

prop("C30", "Typed accessors read and write exactly one stored variable",
     "Each typed property of levels, entities, triggers and tiles reads what was last assigned (the documented default when absent), "
     "stores it under its own variable with its own type, and leaves every other variable alone. Fog, "
     "tile and replay helpers address exactly the documented layer, side, player and frame.",
     ["inputs"], "every accessor, all values and all layers/sublayers",
     "Tests exercise a few accessors on one value each.",
     [E, L, T, V], [("bind_prop accessors", E), ("FogTrigger.get_layer_index / normalize", E), ("Level accessors", L), ("Tile accessors", T), ("Replay accessors", "dustmaker/replay.py")])

prop("C31", "The JSON form of variables is lossless",
     "Converting any variable tree to JSON and back yields an equal tree (or is refused with ValueError when members do not share a schema), "
     "printing a file and feeding the document back reproduces the file byte for byte, and updating a file with a document replaces its "
     "variables with exactly the document's and nothing else.",
     ["inputs"], "all variable trees, keys and leaf values; all var file kinds and levels",
     "Tests convert a single sample; nesting and unevenness of trees is unbounded.",
     [CV, V], [("variables_to_json / json_to_variables", CV), ("Variables.main", CV)])

prop("C32", "Command line edits change exactly what was asked for",
     "The variables, thumbnail and transform utilities change only what they are asked to change: region data, thumbnail and other variables are carried over, input "
     "files and refused targets stay as they were, and an edit that fails leaves the file it was to edit intact. The transform utility upscales, rotates, flips and "
     "then shifts by the given pixels, in that order.",
     ["inputs"], "all levels, documents, images and option combinations, including levels without content and documents that cannot be stored",
     "Tests do not run the utilities.",
     [CV, CT, CTH, CC], [("Variables.update_variables", CV), ("Thumbnail.main", CTH), ("Transform.main", CT)])

prop("C33", "Level files of every supported version are read correctly",
     "Any level file of the game's format is decoded to the content it holds: every supported level and segment version with its own fields, arbitrary values in "
     "fields that carry no content, any order and repetition of layers and entries (the last one wins), removed entries, slack between segments, and plain and extended entity "
     "names side by side.",
     ["inputs"], "all versions, field values and arrangements the format allows, beyond those dustmaker writes itself",
     "Round-trip tests only see files in the form dustmaker writes; the few sample levels cover one version.",
     [R, T], [("DFReader.read_segment", R), ("DFReader.read_region", R), ("DFReader.read_level_ex", R)])

prop("C34", "Malformed files are refused and never loop",
     "Reading data with a wrong identifier, an unsupported version or an impossible variable type raises LevelParseException, and replays or level regions "
     "that are cut short raise an error. Reading always ends; nothing is returned for such data.",
     ["inputs", "fault_sequences"], "all identifiers, versions and type codes; every place at which a replay or a level's region data can be cut",
     "Tests only read well-formed files.",
     [R], [("DFReader.read_expect", R), ("DFReader.read_variable", R), ("DFReader.read_replay", R), ("DFReader.read_level_ex", R)])

prop("C35", "Converting a save keeps every score and counts the keys",
     "The converted save holds exactly one entry per score of a game level with the same results, sorted by name and with the key type the level awards, the numbers of "
     "wood, silver and gold keys spent as implied by the doors opened, the red keys spent as recorded, and the score books unchanged; nothing else is carried over. "
     "The original file is left alone.",
     ["inputs"], "all score tables, results, books and missing entries",
     "There are no tests of the conversion.",
     [CS], [("migrate_stats", CS), ("SaveConvert.main", CS)])

prop("C36", "Saving changes nothing, is repeatable, and objects share no state",
     "Saving a level, replay or variable map leaves it as it was, saving it again gives the same bytes, and loading the result and saving it reproduces the file byte "
     "for byte. Objects created, loaded, copied by a merge or made by upscaling separately share no mutable state: changing one never changes another.",
     ["inputs", "histories"], "all contents; every pair of separately obtained objects, and all values written into one of them",
     "Tests compare single round trips and never look at the object that was saved or at a second object.",
     [W, R, L, T, E, V, RP], [("DFWriter.write_level", W), ("DFWriter.write_replay", W), ("Level.merge", L), ("Tile.upscale", T), ("Entity.__init__", E)])
