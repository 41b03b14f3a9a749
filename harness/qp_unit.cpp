// One QP solver instantiation: -DUNIT="..." -DKIND=ADMM|boxADMM -DNN= -DMM= -DSC=double|float -DFMT=DENSE|SPARSE -DLIN=RecLDLT... -DTRI=Lower|full
#include "qp.hpp"
#define STR_(x) #x
#define STR(x) STR_(x)
namespace { struct Reg { Reg() { vf::registry()[STR(UNIT)] = [](vf::In& in, std::ostream& out, const std::string& id) {
    vf::scenario<KIND<NN, MM, SC, FMT, vf::LIN, TRI>>(in, out, id, STR(UNIT), NN, MM); }; } } reg; }
