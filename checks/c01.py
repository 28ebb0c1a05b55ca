"""C01: status services agree with the history."""
from mc.life import Life


def explore(ctx):
    ctx.dfs(lambda: Life(ctx), depth=5 if ctx.quick else 6, plain_depth=2 if ctx.quick else 3)


def replay(ctx, case):
    ctx.replay_history(Life(ctx), case["history"])
