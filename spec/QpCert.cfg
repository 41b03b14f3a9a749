SPECIFICATION CSpec
CONSTRAINT Progress
POSTCONDITION Accepted
