"""What is model checked and how traces are checked, per property. See DESIGN.md."""
COMMON = ["TLC and the JSON bridge are correct",
          "coordinates are integers times a power of two, so that the real code's inputs are exactly the model's"]


def P(mc, trace, what, assumptions=(), **kw):
    return dict(mc=mc, trace=trace, what=what, assumptions=COMMON + list(assumptions), **kw)


PROPS = {
    "P01": P([("SegInt", "MC_SegInt_q", "quick"), ("SegInt", "MC_SegInt_t", "thorough")], "T01", "pairs of segments (all pairs of a 3x3 grid, and related/random ones) against the exact classification"),
    "P02": P([("SelfInt", "MC_SelfInt_q", "quick"), ("SelfInt", "MC_SelfInt_t", "thorough")], "T02", "polylines on both sides of the brute force / sweep-line switch"),
    "P03": P([("Sweep", "MC_Sweep_q", "quick"), ("Sweep", "MC_Sweep_q3", "both"), ("Sweep", "MC_Sweep_t", "thorough"), ("Sweep", "MC_Sweep_t4", "thorough")], "T03", "IntersectionData"),
    "P04": P([("Sweep", "MC_Sweep_q", "quick"), ("Sweep", "MC_Sweep_q3", "both"), ("Sweep", "MC_Sweep_t", "thorough"), ("Sweep", "MC_Sweep_t4", "thorough")], "T04", "IntersectionTester"),
    "P08": P([("Rdp", "MC_Rdp_q", "quick"), ("Rdp", "MC_Rdp_t", "thorough")], "T08", "2D RDP", max_cases=dict(quick=6000, thorough=60000)),
    "P09": P([("Rdp", "MC_Rdp_s", "quick"), ("Rdp", "MC_Rdp_st", "thorough")], "T09", "3D RDP", max_cases=dict(quick=6000, thorough=60000)),
    "P10": P([("Vw", "MC_Vw_q", "quick"), ("Vw", "MC_Vw_t", "thorough")], "T10", "2D VW", max_cases=dict(quick=6000, thorough=60000)),
    "P11": P([("Vw", "MC_Vw_s", "quick"), ("Vw", "MC_Vw_st", "thorough")], "T11", "3D VW", max_cases=dict(quick=6000, thorough=60000)),
    "P19": P([("RayMarch", "MC_RayMarch_q", "quick"), ("RayMarch", "MC_RayMarch_t", "thorough")], "T19", "rays", max_cases=dict(quick=8100, thorough=60000)),
    "P20": P([("Query", "MC_Query_q", "quick"), ("Query", "MC_Query_t", "thorough"), ("Query", "MC_Query_c", "quick"), ("Query", "MC_Query_ct", "thorough")], "T20", "line string queries", max_cases=dict(quick=12000, thorough=60000)),
    "P22": P([("Nearest", "MC_Nearest_q", "quick"), ("Nearest", "MC_Nearest_t", "thorough"), ("Nearest", "MC_Nearest_s", "quick"), ("Nearest", "MC_Nearest_st", "thorough")], "T22", "distances", max_cases=dict(quick=8000, thorough=60000)),
    "P05": P([("Graham", "MC_Graham_q", "quick"), ("GiftWrap", "MC_GiftWrap_q", "quick"),
              ("Graham", "MC_Graham_t", "thorough"), ("GiftWrap", "MC_GiftWrap_t", "thorough"),
              ("Graham", "MC_Graham_t6", "thorough"), ("GiftWrap", "MC_GiftWrap_t6", "thorough")], "T05",
             "every point cloud is handed to all sequential hull algorithms; TLC checks every returned loop against the declarative hull",
             max_cases=dict(quick=4000, thorough=40000)),
    "P06": P([("HullPar", "MC_HullPar_q", "quick"), ("HullPar", "MC_HullPar_t", "thorough"), ("HullPar", "MC_HullPar_t6", "thorough")], "T06",
             "the parallel hull on pools of 1..16 threads and chunk sizes 1.. with the real rayon, and on every schedule (leaves and bracketing of the reduction) TLC enumerated with a rayon that takes its decisions from the case; TLC checks the returned loop against the declarative hull",
             max_cases=dict(quick=6000, thorough=60000), model_build=True),
    "P07": P([("Contain", "MC_Contain_q", "quick"), ("Contain", "MC_Contain_t", "thorough")], "T07",
             "point and hull containment queries against half-plane containment",
             ["the container is a strictly convex counter clockwise loop, or a closed loop of one or two points"], max_cases=dict(quick=2700, thorough=12000)),
    "P23": P([("Turn", "MC_Turn_q", "quick"), ("Turn", "MC_Turn_t", "thorough")], "T23", "orientation predicates on exact coordinates"),
    "P12": P([("Shapes", "MC_Shapes_q", "both"), ("Shapes", "MC_Shapes_l", "both"), ("Shapes", "MC_Shapes_t", "thorough")], "T12", "shapes"),
    "P13": P([("Walk", "MC_Walk_q", "quick"), ("Walk", "MC_Walk_t", "thorough")], "T13", "discretize"),
    "P14": P([("Box", "MC_Box_q", "both"), ("Box", "MC_Box_t", "thorough")], "T14", "boxes"),
    "P15": P([("Fit", "MC_Fit_q", "quick"), ("Fit", "MC_Fit_t", "thorough")], "T15", "affine"),
    "P16": P([("Project", "MC_Project_q", "quick"), ("Project", "MC_Project_t", "thorough")], "T16", "planes"),
    "P17": P([("Arc", "MC_Arc_q", "quick"), ("Arc", "MC_Arc_t", "thorough")], "T17", "arcs"),
    "P18": P([("ObjWriter", "MC_ObjWriter_q", "quick"), ("ObjWriter", "MC_ObjWriter_t", "thorough")], "T18", "obj"),
    "P21": P([("Iterate", "MC_Iterate_q", "quick"), ("Iterate", "MC_Iterate_t", "thorough")], "T21", "iterators"),
    "P25": P([("Feeding", "MC_Feeding_q", "quick"), ("Feeding", "MC_Feeding_t", "thorough")], "T25", "histories of feeding the two sweeps, with coordinates that are not finite", max_cases=dict(quick=6000, thorough=20000)),
    "P27": P([("Screen", "MC_Screen_q", "quick"), ("Screen", "MC_Screen_t", "thorough")], "T27", "hulls of points some of which are not finite", max_cases=dict(quick=6000, thorough=40000)),
    "P26": P([("Printer", "MC_Printer_q", "quick"), ("Printer", "MC_Printer_t", "thorough")], "T26", "the text of shapes, shapes made from plain numbers"),
    "P24": P([("Compare", "MC_Compare_q", "quick"), ("Compare", "MC_Compare_t", "thorough")], "T24", "approx"),
}
