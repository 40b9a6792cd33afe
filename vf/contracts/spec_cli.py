"""The command-line handlers: what the library call gives, or one line on standard error and exit status 1."""
import json
import sys

import jsonpath
from jsonpath import cli
from jsonpath.exceptions import JSONPatchError, JSONPathError, JSONPointerError


class Args:
    """Parsed command-line arguments (argparse.Namespace)."""


class In:
    """A file open for reading."""

    def read(self):
        """Text."""


class Out:
    """A file open for writing."""

    def write(self, text):
        """Any text."""


class Bytes:
    """A file open for reading bytes."""

    def read(self):
        """Bytes."""


def run(handler, args):
    try:
        handler(args)
    except SystemExit as e:
        return ("exit", e.code)
    return ("exit", 0)


def write(args, value):
    if args.pretty:
        args.output.write(json.dumps(value, indent=cli.INDENT))
    else:
        args.output.write(json.dumps(value))
    return ("exit", 0)


def refuse():
    sys.stderr.write("one line")
    return ("exit", 1)


def code_path(args):
    return run(cli.handle_path_command, args)


def path(args):
    try:
        query = args.query if args.query is not None else args.path_file.read().strip()
        env = jsonpath.JSONPathEnvironment(unicode_escape=not args.no_unicode_escape, well_typed=not args.no_type_checks)
        matches = env.compile(query).findall(args.file)
    except (JSONPathError, ValueError):
        if args.debug:
            raise
        return refuse()
    return write(args, matches)


def code_pointer(args):
    return run(cli.handle_pointer_command, args)


def pointer(args):
    try:
        pointer = args.pointer if args.pointer is not None else args.pointer_file.read().strip()
        p = jsonpath.JSONPointer(pointer, unicode_escape=not args.no_unicode_escape, uri_decode=args.uri_decode)
        match = p.resolve(args.file)
    except (JSONPointerError, ValueError):
        if args.debug:
            raise
        return refuse()
    return write(args, match)


def code_patch(args):
    return run(cli.handle_patch_command, args)


def patch(args):
    try:
        ops = json.loads(args.patch.read())
        if not isinstance(ops, list):
            return refuse()
        p = jsonpath.JSONPatch(ops, unicode_escape=not args.no_unicode_escape, uri_decode=args.uri_decode)
        patched = p.apply(args.file)
    except (JSONPatchError, ValueError):
        if args.debug:
            raise
        return refuse()
    return write(args, patched)


def code_message(message):
    """Whatever the message."""
    return run(cli._exit_with_error, message)


def message(message):
    return refuse()
