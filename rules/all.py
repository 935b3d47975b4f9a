RULES = {}
from . import store, chain, life, http, node, decode, codec
DRAFT = set()
ALL = {}
for m in (store, chain, life, http, node, decode, codec): ALL.update(m.RULES)
RULES = {k: v for k, v in ALL.items() if k not in DRAFT}
