LEVEL = {}
_vf = "static analysis: gated value-flow (abstract interpretation of the AST, interprocedural, all paths and loop iterations) compared in normal form with the specification"
_nb = "All paths of the analysed functions are covered; opaque library calls are trusted to do what their documentation says, and loops are treated as one arbitrary iteration."
for _i in range(1, 60):
    TECH["P%02d" % _i] = (_vf, _nb)

_scan = "static analysis: package-wide effect, taint and call-graph analysis over the syntax tree with inferred types (every function, class body and module body)"
_nbscan = "Every function of the package is analysed; types are inferred from annotations and assignments, values of unknown type are treated as not being sets, clocks or shared containers. External libraries are trusted not to draw randomness or keep state on their own."
for _i in ("P07", "P27", "P33"):
    TECH[_i] = (_scan, _nbscan)
