#include "vec.h"

using namespace h;

struct VecInterp : Interp {
    std::map<std::string, std::unique_ptr<PartI>> parts;
    void run(const Args& a) override
    {
        if (a[0] == "bufs") { // bufs NAME type
            parts[a[1]] = buffers_part(a[2]);
        } else if (a[0] == "vecs") { // vecs NAME type p
            parts[a[1]] = vectors_part(a[2], I(a[3]));
        } else if (a[0] == "dump") {
            if (!parts.count("dump"))
                parts["dump"] = dumps_part();
            parts["dump"]->run(Args(a.begin() + 1, a.end()));
        } else if (a[0] == "props") {
            if (!parts.count("props"))
                parts["props"] = props_part();
            parts["props"]->run(Args(a.begin() + 1, a.end()));
        } else {
            if (!parts.count(a[0]))
                throw std::runtime_error("script: " + a[0]);
            parts[a[0]]->run(Args(a.begin() + 1, a.end()));
        }
    }
};

int main(int argc, char** argv)
{
    return main_loop(argc, argv, [] {
        return std::unique_ptr<Interp>(new VecInterp());
    });
}
