// The guarantees of F01, F02, F03, F05 and F06 for the library's Windows file implementation, compiled against a stand-in
// for the Windows file functions.
#include "fil.hpp"
#include "win/winfile.hpp"
#include <cmp/io/opaque_container_io_resource.hpp>
#include <cmp/io/transparent_container_io_resource.hpp>
#include <optional>
#include <sys/mman.h>
#include <sys/stat.h>
#include <set>
#if !defined(CMP_OS_WINDOWS)
#error "this harness needs the Windows sources of the library"
#endif
namespace w_read {
#define pbt_property property
#define pbt_info info
#include "F01.cpp"
}
namespace w_write {
#include "F02.cpp"
}
namespace w_open {
#include "F03.cpp"
}
namespace w_move {
#include "F05.cpp"
}
namespace w_large {
#include "F06.cpp"
}
#undef pbt_property
#undef pbt_info
const pbt::Info pbt_info{"W01",
    "the histories of F01 (reading), F02 (writing), F03 (opening), F05 (moving) and F06 (large files) over the library's Windows file sources, with a stand-in for the Windows "
    "file functions over scratch files, against the same byte arrays; non-trivial: as there", 250000, 3000000};

void pbt_property(pbt::Tape& t, pbt::Case& c) {
    switch (t.weighted({3, 4, 3, 3, 1})) {
        case 0: c.label("reading"); w_read::property(t, c); break;
        case 1: c.label("writing"); w_write::property(t, c); break;
        case 2: c.label("opening"); w_open::property(t, c); break;
        case 3: c.label("moving"); w_move::property(t, c); break;
        default: c.label("large files"); w_large::property(t, c); break;
    }
}
