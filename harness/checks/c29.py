"""C29: an accepted change affects that field and its counterpart links only."""
from vp.ops import field_rows, histories


def run(ctx):
    t = ctx.thorough
    rows = field_rows(ctx)
    histories(ctx, rows, 500 if t else 90, 40, {"fields", "ids", "reverse", "kinds", "arguments_unchanged", "as_given"})
