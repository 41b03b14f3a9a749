SPECIFICATION Spec
CONSTANT MaxLen = 2
CONSTANT Ops = {"add", "sub", "mul", "div", "addc", "csub", "mulc", "divc", "cdiv", "neg", "sq", "abs", "sin", "cos", "tan", "exp", "log", "sqrt", "sinh", "cosh", "tanh", "asin", "acos", "min", "max", "acc", "mix", "hyp"}
CONSTANT Points <- Pts
INVARIANT Derivatives
INVARIANT Symmetric
