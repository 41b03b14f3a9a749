SPECIFICATION TSpec
CONSTRAINT Progress
INVARIANTS CopiesFeasible SolvedHonest Fresh

POSTCONDITION Accepted
