CONSTANTS N = 3
 Sep = ""
 Names = {"box", "p", "br", "table", "tr", "td", "grid", "gr", "part", "image", "lf", "foo"}
INIT Init
NEXT Next
INVARIANTS Report NoPartial
CHECK_DEADLOCK FALSE
