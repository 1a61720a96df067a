// Buffers, vectors, views and properties: sequences of operations on named
// objects, all of which are read after each operation.
#pragma once
#include "common.h"
#include <iomanip>

namespace h {

struct PartI {
    virtual ~PartI() {}
    virtual void run(const Args& a) = 0;
};
std::unique_ptr<PartI> props_part();
std::unique_ptr<PartI> dumps_part();
std::unique_ptr<PartI> buffers_part(const std::string& type);
std::unique_ptr<PartI> vectors_part(const std::string& type, unsigned p);

} // namespace h
