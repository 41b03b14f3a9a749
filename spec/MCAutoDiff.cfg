SPECIFICATION Spec
CONSTANT MaxLen = 2
CONSTANT Ops = {"pow", "powx", "floor", "self", "minc", "cmax", "iaddc", "isubc", "imulc", "idivc", "dmin", "dmax", "atan2", "iadd", "isub", "imul", "idiv", "iexpr", "sin", "mul", "neg", "cdiv", "mix"}
CONSTANT Points <- Pts
INVARIANT Derivatives
INVARIANT Symmetric
