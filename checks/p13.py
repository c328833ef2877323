"""P13: unknown, unsupported, misplaced and incomplete content is refused, with a documented error."""
from checks import readers

RULES = ('wrong-name', 'documented-error', 'mandatory-attribute', 'attribute-value', 'failure-reported', 'unknown-rejected', 'count', 'child-read',
         'reference-resolved')


def run(ctx):
    readers.run(ctx, RULES, leave=('pairs',))
    ctx.minimum('documented-error', 100)
    ctx.minimum('mandatory-attribute', 20)
