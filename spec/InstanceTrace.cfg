SPECIFICATION Spec
CONSTRAINT Progress
POSTCONDITION Accepted
