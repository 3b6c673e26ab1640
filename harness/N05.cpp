#include "num.hpp"
using namespace num;
const pbt::Info pbt_info{"N05",
    "random distinct words for true and false (also prefixes and case variants of each other), random texts near them, every encoding; "
    "non-trivial: words of at least two characters",
    2300000, 27600000};

void pbt_property(pbt::Tape& t, pbt::Case& c) {
    int e = static_cast<int>(t.draw(5));
    int form = static_cast<int>(t.draw(3));
    bool ascii = e == 4;
    auto word = [&] { auto w = uni::gen_scalars(t, 8, ascii, true, true); if (w.empty()) w.push_back('t'); return w; };
    uni::Scalars tw = word(), fw = word();
    bool dflt = t.chance(1, 6);
    if (dflt) { tw = to_scalars("1"); fw = to_scalars("0"); }
    else if (t.chance(1, 6)) { // the usual words
        static const char* pairs[][2] = {{"true", "false"}, {"True", "False"}, {"TRUE", "FALSE"}, {"yes", "no"}, {"Yes", "No"}, {"on", "off"}, {"t", "f"}, {"y", "n"}, {"T", "F"}, {"0", "1"}, {"false", "true"}, {"-1", "0"}};
        auto& q = pairs[t.draw(12)];
        tw = to_scalars(q[0]); fw = to_scalars(q[1]);
    } else if (t.chance(1, 3)) { fw = tw; if (t.flip()) fw.push_back('x'); else fw.insert(fw.begin(), 'x'); }
    if (tw == fw) fw.push_back('n');
    uni::Scalars in;
    switch (t.draw(6)) {
        case 0: in = tw; break;
        case 5: { static const char* usual[] = {"true", "false", "1", "0", "yes", "no", "t", "f", "TRUE", "False", "on", "off", "2", "-1", "01", "y", "n", "T"}; in = to_scalars(t.pick(usual)); break; }
        case 1: in = fw; break;
        case 2: in = t.flip() ? tw : fw; mutate(t, in, Fmt{}); break;
        case 3: in = t.flip() ? tw : fw; in.resize(t.draw(in.size() + 1)); break;
        default: in = t.flip() ? tw : fw; for (auto& ch : in) if (ch < 128 && std::isalpha(static_cast<int>(ch))) ch ^= 0x20;
    }
    if (ascii) for (auto& ch : in) if (ch > 127) ch = 'q';
    for (auto& ch : in) if (ch == 0) ch = 'q';
    c.nontrivial(tw.size() >= 2 && fw.size() >= 2);
    int want = in == tw ? 1 : in == fw ? 0 : -1;
    c.label(want == 1 ? "true" : want == 0 ? "false" : "neither");
    c.note([&](auto& os) { os << "true \"" << narrow(tw) << "\" false \"" << narrow(fw) << "\" text \"" << narrow(in) << "\" " << uni::enc_name(e); });
    auto tw8 = uni::encode<std::u8string>(tw), fw8 = uni::encode<std::u8string>(fw);
    cmp::bool_format f;
    if (!dflt) {
        if (t.flip()) f = cmp::bool_format{tw8, fw8};
        else if (t.flip()) { f.set_true_string(tw8); f.set_false_string(fw8); }
        else { f.set_false_string(fw8); f.set_true_string(tw8); }
    }
    PBT_CHECK(f.get_true_string() == tw8 && f.get_false_string() == fw8, "words of the format");
    uni::with_encoding(e, [&](auto z) {
        using S = decltype(z);
        using C = typename S::value_type;
        S yes = cmp::format_bool<S>(true, f), no = cmp::format_bool<S>(false, f);
        PBT_CHECK(yes == uni::encode<S>(tw), "true written as " << uni::show(yes));
        PBT_CHECK(no == uni::encode<S>(fw), "false written as " << uni::show(no));
        S s = uni::encode<S>(in);
        if (e != 4 && t.chance(1, 20)) {
            s.insert(t.draw(s.size() + 1), ill_formed_piece<S>(t));
            c.label("ill-formed");
            uni::Exact<C> x{std::basic_string_view<C>(s)};
            bool refused = false;
            try { cmp::parse_bool(x.view(), f); } catch (const std::exception&) { refused = true; }
            PBT_CHECK(refused, "accepted ill-formed text " << uni::show(s));
            return;
        }
        int got = -1;
        cmp::parse_failed::type ty{};
        try {
            if (form == 0) got = cmp::parse_bool(s, f);
            else if (form == 1) { uni::Exact<C> x{std::basic_string_view<C>(s)}; got = cmp::parse_bool(x.view(), f); }
            else { uni::Exact<C> x{std::basic_string_view<C>(s), true}; got = cmp::parse_bool(x.ptr(), f); }
        } catch (const cmp::parse_failed& x) { ty = x.get_type(); }
        PBT_CHECK(got == want, "parsed as " << got);
        if (want == -1) PBT_CHECK(ty == (in.empty() ? cmp::parse_failed::type::empty_input : cmp::parse_failed::type::neither_boolean), "error kind");
    });
}
