// Generic driver: scenarios are "<id> <unit> <unit specific tokens>"; every unit registers itself.
#include "common.hpp"
int main(int argc, char** argv)
{
    if(argc < 3) return 3;
    std::ifstream f(argv[1]); std::ofstream out(argv[2], std::ios::app);
    vf::In in(f);
    while(in.more())
    {
        std::string id = in.tok(), unit = in.tok();
        auto it = vf::registry().find(unit);
        if(it == vf::registry().end()) { std::cerr << "harness: unknown unit " << unit << "\n"; return 3; }
        { std::ofstream cur(std::string(argv[2]) + ".current"); cur << id << "\n"; }
        it->second(in, out, id);
    }
    std::ofstream cur(std::string(argv[2]) + ".current"); cur << "-done-\n";
    return 0;
}
