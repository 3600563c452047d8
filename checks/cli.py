"""Driving the command line utilities through their entry points."""

import sys

from dustmaker.cmd.common import run_utility
from dustmaker.cmd.main import main
from dustmaker.cmd.save_convert import SaveConvert
from dustmaker.cmd.thumbnail import Thumbnail
from dustmaker.cmd.transform import Transform
from dustmaker.cmd.variables import Variables

TOOLS = {"variables": Variables, "thumbnail": Thumbnail, "transform": Transform, "saveconvert": SaveConvert}


def call(entry, argv):
    """Exit code of an entry point run with these arguments."""
    old = sys.argv
    sys.argv = ["dustmaker"] + list(argv)
    try:
        rc = entry()
    except SystemExit as e:
        rc = e.code
    finally:
        sys.argv = old
    return 0 if rc is None else rc


def run_tool(ctx, tool, argv):
    """Through the shared entry point (python -m dustmaker TOOL ...)."""
    return ctx.quiet(lambda: call(main, [tool] + list(argv)))


def show_json(ctx, argv):
    """Through the entry point of the single utility."""
    return ctx.capture_json(lambda: call(lambda: run_utility(Variables), argv))
