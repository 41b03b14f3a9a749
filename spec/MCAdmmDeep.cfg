SPECIFICATION MCSpec
CONSTANTS Rows = {"ineq", "eq", "lo", "up", "loose", "far", "narrow", "almost"}
 Boxes = {"ineq", "eq", "lo", "loose", "narrow", "almost"}
 Hs = {"pd", "psd", "zero"}
 Sets = {"a", "b", "c", "d"}
 MaxIters = {0, 1, 25}
 Guess = {TRUE, FALSE}
INVARIANTS CopiesFeasible Complementary SolvedCertificate SolvedHonest LimitHonest Bounded Fresh RhoInRange
PROPERTIES RhoMoves Terminates
