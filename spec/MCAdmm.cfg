SPECIFICATION MCSpec
CONSTANTS Rows = {"ineq", "eq", "loose", "far"}
 Boxes = {"lo", "narrow", "almost"}
 Hs = {"psd"}
 Sets = {"a", "b", "c"}
 MaxIters = {0, 9}
 Guess = {FALSE}
INVARIANTS CopiesFeasible Complementary SolvedCertificate SolvedHonest LimitHonest Bounded Fresh RhoInRange
PROPERTIES RhoMoves Terminates
