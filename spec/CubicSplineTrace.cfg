SPECIFICATION TSpec
CONSTRAINT Progress
POSTCONDITION Accepted
