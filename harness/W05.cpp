// The guarantees of U01 to U05, N01, N02 and S02 to S04 where wchar_t has 16 bits, as on Windows: wide strings are UTF-16.
#include "txt.hpp"
#include "num.hpp"
#include "win/shortwide.hpp"
#include <cmp/unicode/algorithms.hpp>
#define pbt_property property
#define pbt_info info
namespace w_convert {
#include "U01.cpp"
}
namespace w_walk {
#include "U02.cpp"
}
namespace w_fault {
#include "U03.cpp"
}
namespace w_insert {
#include "U04.cpp"
}
namespace w_affix {
#include "U05.cpp"
}
namespace w_format {
#include "N01.cpp"
}
namespace w_parse {
#include "N02.cpp"
}
namespace w_write {
#include "S02.cpp"
}
namespace w_read {
#include "S03.cpp"
}
namespace w_both {
#include "S04.cpp"
}
#undef pbt_property
#undef pbt_info
const pbt::Info pbt_info{"W05",
    "the cases of U01 to U05 (text), N01, N02 (integers) and S02 to S04 (text streams) in a build whose wchar_t has 16 bits, so that wide strings are UTF-16; "
    "non-trivial: as there", 1200000, 16000000};

void pbt_property(pbt::Tape& t, pbt::Case& c) {
    switch (t.weighted({4, 4, 4, 3, 3, 1, 1, 3, 2, 2})) {
        case 0: c.label("converting"); w_convert::property(t, c); break;
        case 1: c.label("walking"); w_walk::property(t, c); break;
        case 2: c.label("ill-formed"); w_fault::property(t, c); break;
        case 3: c.label("inserting"); w_insert::property(t, c); break;
        case 4: c.label("comparing"); w_affix::property(t, c); break;
        case 5: c.label("formatting"); w_format::property(t, c); break;
        case 6: c.label("parsing"); w_parse::property(t, c); break;
        case 7: c.label("writing"); w_write::property(t, c); break;
        case 8: c.label("reading"); w_read::property(t, c); break;
        default: c.label("round trip"); w_both::property(t, c); break;
    }
}
