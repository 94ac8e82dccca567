NOTE.update({
 'C10': ('TLA+ spec Smeft.tla (operator content and symmetries, TLC), every independent coefficient and array element compared', 'all 3-generation index combinations; values 1, i and random superpositions'),
 'C11': ('TLA+ spec Smeft.tla (field content), rotations derived from it compared with the code', 'random unitary matrices and CKM parameters; all operators and indices with quark doublets'),
 'C15': ('TLA+ spec Lower.tla, exhaustive TLC, every matching transition and simulated histories replayed', 'exhaustive for two coefficients per basis and one redefinition; larger bases sampled'),
 'C16': ('TLA+ spec Qcd.tla (running/decoupling plans, query histories), plans executed with rundec primitives and compared', 'the elementary operations of rundec are trusted; scales and inputs sampled'),
 'C18': ('TLA+ spec Eos.tla, exhaustive TLC, every scenario replayed', 'exhaustive over value kinds and file relevance; numbers and names sampled'),
 'C20': ('TLA+ spec Cli.tla, exhaustive TLC, scenarios replayed through the entry points in forked processes', 'all single-fault scenarios, a sample of the multi-fault ones in quick'),
 'C23': ('TLA+ spec Smeft.tla (action of the translation per operator) compared with the code', 'all operators; values and CKM parameters sampled'),
 'C24': ('TLA+ spec Load.tla, exhaustive TLC over distributions and orders, every distribution imported in a fresh process', 'up to 2 EFTs, 3 bases, 3 children; listing orders sampled'),
 'C09': ('TLA+ specs Conv.tla (calls, histories) and the models of C10-C14, TLC, every call scenario and simulated history replayed', 'the small world of call scenarios is exhaustive; coefficient contents and parameters sampled'),
 'C12': ('TLA+ spec Match.tla (tree-level matching derived from the SU(2) decomposition, Z/W exchange, Fierz and colour identities), TLC, compared coefficient by coefficient', 'all coefficients and routes; values and parameters sampled; normalisation conventions as cited in DESIGN.md'),
 'C13': ('TLA+ specs Wet.tla, Jms.tla (operator definitions of each basis, Fierz identities), TLC, every coefficient of every translator compared', 'all coefficients; parameters and scales sampled'),
 'C14': ('TLA+ spec Wet.tla (route graph, composition of the derived maps), TLC, routes walked in the code', 'all routes up to three steps; every coefficient starts a route'),
 'C17': ('TLA+ spec Params.tla (parameter overriding, call histories), exhaustive TLC, scenarios and simulated histories replayed', 'exhaustive in the small world; parameter values sampled'),
 'C19': ('TLA+ specs Smeftsim.tla (layout of both cards derived from the operator symmetries) and Cards.tla (histories), TLC, every entry of every card compared', 'all entries; values sampled; places and standard entries are pinned in the specification'),
})
