"""P14: every attribute and child element stands in its field, in document order."""
from checks import readers

RULES = ('accepted', 'attribute-kept', 'attribute-default', 'result-type', 'child-kept', 'child-read', 'nothing-invented', 'document-order',
         'clash-rejected', 'comment-ignored', 'text-kept')


def run(ctx):
    readers.run(ctx, RULES, leave=('unknown',))
    ctx.minimum('attribute-kept', 30)
    ctx.minimum('child-kept', 60)
    ctx.minimum('document-order', 30)
