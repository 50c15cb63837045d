import os
def prove(prop, repo, tier):
    if not os.path.exists(os.path.join(os.path.dirname(__file__), 'props', prop.lower()+'.py')): return None
    from . import core
    return core.prove(prop, repo, tier)
