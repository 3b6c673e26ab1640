#include "txt.hpp"
#include <cmp/io/data_io_stream.hpp>
using namespace txt;
const pbt::Info pbt_info{"S07",
    "up to 6 streams at once (plain, binary and text; input, output and two-way; made anew, copied and moved, with their own byte orders and encodings) over one resource (container or file, random "
    "buffer), driven by up to 50 random reads and writes of bytes, values and text, seeks through any of them, flushes and destructions, against a byte array with a position; "
    "non-trivial: at least two streams used and 4 steps",
    1300000, 15600000};

namespace {
using PI = cmp::input_stream<Any>;
using PO = cmp::output_stream<Any>;
using DI = cmp::data_input_stream<Any>;
using DO = cmp::data_output_stream<Any>;
using DX = cmp::data_io_stream<Any>;
enum kind { plain_in, plain_out, data_in, data_out, data_io, text_in, text_out, text_io, kind_count };
const char* kind_name(int k) { static const char* n[] = {"input", "output", "data input", "data output", "data io", "text input", "text output", "text io"}; return n[k]; }

struct Member {
    int kind = 0;
    Enc in, out;
    std::unique_ptr<PI> pi; std::unique_ptr<PO> po;
    std::unique_ptr<DI> di; std::unique_ptr<DO> dout; std::unique_ptr<DX> dx;
    std::unique_ptr<In> ti; std::unique_ptr<Out> to; std::unique_ptr<IO> tx;

    PI* input() { return pi ? pi.get() : di ? di.get() : dx ? static_cast<PI*>(static_cast<DI*>(dx.get())) : ti ? ti.get() : tx ? static_cast<PI*>(static_cast<In*>(tx.get())) : nullptr; }
    PO* output() { return po ? po.get() : dout ? dout.get() : dx ? static_cast<PO*>(static_cast<DO*>(dx.get())) : to ? to.get() : tx ? static_cast<PO*>(static_cast<Out*>(tx.get())) : nullptr; }
    DI* data_input() { return di ? di.get() : dx.get(); }
    DO* data_output() { return dout ? dout.get() : dx.get(); }
    In* text_input() { return ti ? ti.get() : tx.get(); }
    Out* text_output() { return to ? to.get() : tx.get(); }

    void make(Any& r, bool dflt) {
        auto e = endian(in.big);
        switch (kind) {
            case plain_in: pi = dflt ? std::make_unique<PI>(r) : std::make_unique<PI>(r, e); break;
            case plain_out: po = dflt ? std::make_unique<PO>(r) : std::make_unique<PO>(r, e); break;
            case data_in: di = dflt ? std::make_unique<DI>(r) : std::make_unique<DI>(r, e); break;
            case data_out: dout = dflt ? std::make_unique<DO>(r) : std::make_unique<DO>(r, e); break;
            case data_io: dx = dflt ? std::make_unique<DX>(r) : std::make_unique<DX>(r, e); break;
            case text_in: ti = dflt ? std::make_unique<In>(r, forms[in.form]) : std::make_unique<In>(r, forms[in.form], e); break;
            case text_out: to = dflt ? std::make_unique<Out>(r, forms[in.form]) : std::make_unique<Out>(r, forms[in.form], e); break;
            default: tx = dflt ? std::make_unique<IO>(r, forms[in.form]) : std::make_unique<IO>(r, forms[in.form], e);
        }
    }
    template <class F> void each(F&& f) { f(pi); f(po); f(di); f(dout); f(dx); f(ti); f(to); f(tx); }
    static Member derived(Member& o, bool move) {
        Member m;
        m.kind = o.kind; m.in = o.in; m.out = o.out;
        auto one = [&](auto& to, auto& from) {
            if (!from) return;
            using T = std::decay_t<decltype(*from)>;
            to = move ? std::make_unique<T>(std::move(*from)) : std::make_unique<T>(*from);
        };
        one(m.pi, o.pi); one(m.po, o.po); one(m.di, o.di); one(m.dout, o.dout); one(m.dx, o.dx); one(m.ti, o.ti); one(m.to, o.to); one(m.tx, o.tx);
        return m;
    }
};
}

void pbt_property(pbt::Tape& t, pbt::Case& c) {
    int store = Store::gen_kind(t);
    std::size_t cap = res::gen_capacity(t);
    res::Model m;
    if (t.flip()) m.data = res::gen_bytes(t, t.length(60));
    else put(m.data, gen_text(t, 30, false, true), gen_enc(t));
    Store st(store, cap, m.data, c.scratch);
    Any& r = *st.r;
    std::vector<Member> s;
    unsigned steps = static_cast<unsigned>(t.length(50)), used = 0, last = 99;
    c.label(Store::name(store)); c.label(cap ? "buffered" : "unbuffered");
    c.note([&](auto& os) { os << Store::name(store) << " of " << m.data.size() << " bytes, buffer " << cap; });
    auto add = [&] {
        Member x;
        x.kind = static_cast<int>(t.draw(kind_count));
        x.in = gen_enc(t);
        bool dflt = t.chance(1, 3);
        // documented defaults: native for bytes and values, big for text
        if (dflt) x.in.big = x.kind >= text_in ? true : std::endian::native == std::endian::big;
        x.out = x.in;
        c.note([&](auto& os) { os << "new " << s.size() << ": " << kind_name(x.kind) << " " << show(x.in) << (dflt ? " by default" : ""); });
        x.make(r, dflt);
        s.push_back(std::move(x));
    };
    add();
    for (unsigned k = 0; k < steps; ++k) {
        unsigned j = static_cast<unsigned>(t.draw(s.size()));
        Member& x = s[j];
        bool reads = x.input() != nullptr, writes = x.output() != nullptr;
        int op = static_cast<int>(t.weighted({8, 3, 2, 1, 1, 1, 2, 1}));
        if (op == 0) {
            bool rd = reads && (!writes || t.flip());
            if (j != last) { ++used; last = j; }
            auto room = m.size() - m.pos;
            if (rd) {
                if ((x.kind == data_in || x.kind == data_io) && t.chance(3, 4)) {
                    auto number = [&](auto v) {
                        if (room < static_cast<std::int64_t>(sizeof v)) return;
                        c.note([&](auto& os) { os << j << " reads a value of " << sizeof v; });
                        Bytes b = m.read(sizeof v);
                        decltype(v) want = 0;
                        for (std::size_t i = 0; i < sizeof v; ++i) want = static_cast<decltype(v)>(static_cast<std::uint64_t>(want) << 8 | b[x.in.big ? i : sizeof v - 1 - i]);
                        *x.data_input() >> v;
                        PBT_CHECK(v == want, "stream " << j << " read " << +v << ", should be " << +want);
                    };
                    switch (t.draw(4)) { case 0: number(std::uint8_t{}); break; case 1: number(std::uint16_t{}); break; case 2: number(std::uint32_t{}); break; default: number(std::uint64_t{}); }
                } else if (x.text_input() && t.chance(3, 4)) {
                    if (room <= 0) continue;
                    Bytes rest(m.data.begin() + m.pos, m.data.begin() + std::min<std::int64_t>(m.size(), m.pos + 4));
                    auto d = get(rest, x.in);
                    if (d.scalars.empty() || d.scalars[0] == '\r') continue;
                    c.note([&](auto& os) { os << j << " reads a character"; });
                    Bytes e;
                    put(e, {d.scalars[0]}, x.in);
                    m.read(e.size());
                    char32_t g = 0;
                    *x.text_input() >> g;
                    PBT_CHECK(g == d.scalars[0], "stream " << j << " read " << std::hex << static_cast<unsigned>(g) << ", should be " << static_cast<unsigned>(d.scalars[0]));
                } else {
                    std::size_t n = t.draw(40);
                    c.note([&](auto& os) { os << j << " reads " << n << " bytes"; });
                    std::unique_ptr<std::byte[]> p(new std::byte[n ? n : 1]);
                    Bytes want = n ? m.read(n) : Bytes{}; // a read of nothing may leave pending output pending
                    // a stream whose byte order is not the machine's hands the bytes of one read over in the machine's
                    if (x.in.big != (std::endian::native == std::endian::big)) std::reverse(want.begin(), want.end());
                    std::size_t got = x.input()->read(p.get(), n);
                    PBT_CHECK(got == want.size() && (got == 0 || std::memcmp(p.get(), want.data(), got) == 0), "stream " << j << " read " << got << " bytes, should be " << res::show(want));
                }
            } else {
                if (m.pos > 3000) continue;
                if (x.data_output() && t.chance(3, 4)) {
                    auto number = [&](auto v) {
                        v = static_cast<decltype(v)>(t.draw(0));
                        c.note([&](auto& os) { os << j << " writes " << +v; });
                        Bytes b;
                        for (std::size_t i = 0; i < sizeof v; ++i) b.push_back(static_cast<unsigned char>(v >> 8 * (x.out.big ? sizeof v - 1 - i : i)));
                        m.write(b);
                        *x.data_output() << v;
                    };
                    switch (t.draw(4)) { case 0: number(std::uint8_t{}); break; case 1: number(std::uint16_t{}); break; case 2: number(std::uint32_t{}); break; default: number(std::uint64_t{}); }
                } else if (x.text_output() && t.chance(3, 4)) {
                    Scalars v = gen_text(t, 8, false);
                    if (v.empty() && m.pos > m.size()) continue;
                    c.note([&](auto& os) { os << j << " writes text " << uni::show(v); });
                    Bytes b;
                    put(b, v, x.out);
                    if (!b.empty()) m.write(b);
                    *x.text_output() << uni::encode<std::u32string>(v);
                } else {
                    Bytes b = res::gen_bytes(t, t.draw(40));
                    if (b.empty() && m.pos > m.size()) continue;
                    bool rev = t.chance(1, 3);
                    c.note([&](auto& os) { os << j << " writes " << b.size() << " bytes" << (rev ? " reversed" : ""); });
                    std::unique_ptr<std::byte[]> p(new std::byte[b.size() ? b.size() : 1]);
                    if (!b.empty()) std::memcpy(p.get(), b.data(), b.size());
                    if (rev) std::reverse(b.begin(), b.end());
                    m.write(b);
                    std::size_t got = rev ? x.output()->reverse_write(p.get(), b.size()) : x.output()->write(p.get(), b.size());
                    PBT_CHECK(got == b.size(), "a write of " << b.size() << " bytes returned " << got);
                }
            }
        } else if (op == 1) { // seek through the stream
            std::int64_t to = t.chance(1, 8) ? m.size() + static_cast<std::int64_t>(t.draw(6)) : static_cast<std::int64_t>(t.draw(static_cast<std::uint64_t>(m.size()) + 1));
            int ref = static_cast<int>(t.draw(3));
            std::int64_t off = to - (ref == 0 ? 0 : ref == 1 ? m.pos : m.size());
            static const cmp::position_reference refs[] = {cmp::position_reference::begin, cmp::position_reference::current, cmp::position_reference::end};
            c.note([&](auto& os) { os << j << " seeks to " << to; });
            m.seek(off, ref);
            if (x.dx) (*x.dx)->set_position(off, refs[ref]);
            else if (x.tx) (*x.tx)->set_position(off, refs[ref]);
            else if (reads) (*x.input())->set_position(off, refs[ref]);
            else (*x.output())->set_position(off, refs[ref]);
        } else if (op == 2) { // settings
            bool of_in = reads && (!writes || t.flip());
            Enc& e = of_in ? x.in : x.out;
            if (t.flip()) {
                e.big = !e.big;
                if (of_in) x.input()->set_endianness(endian(e.big)); else x.output()->set_endianness(endian(e.big));
            } else {
                int f = static_cast<int>(t.draw(3));
                if (of_in && x.text_input()) { e.form = f; x.text_input()->set_encoding_form(forms[f]); }
                else if (!of_in && x.text_output()) { e.form = f; x.text_output()->set_encoding_form(forms[f]); }
            }
            c.note([&](auto& os) { os << j << (of_in ? " in " : " out ") << show(e); });
        } else if (op == 3) { if (s.size() < 6) add(); }
        else if (op == 4) {
            if (s.size() < 6) {
                bool move = t.flip();
                c.note([&](auto& os) { os << (move ? "move of " : "copy of ") << j; });
                Member y = Member::derived(x, move);
                if (move) { s[j] = std::move(y); }
                else s.push_back(std::move(y));
            }
        } else if (op == 5) {
            if (s.size() > 1) {
                c.note([&](auto& os) { os << "end of " << j; });
                bool w = writes;
                s.erase(s.begin() + j);
                last = 99;
                if (w) { m.flush(); PBT_CHECK(st.content() == m.data, "after the end of an output stream the resource holds " << res::show(st.content()) << " should be " << res::show(m.data)); }
            }
        } else if (op == 6) {
            if (writes) {
                c.note([&](auto& os) { os << j << " flushes"; });
                if (t.flip()) x.output()->flush(); else *x.output() << cmp::flush;
                m.flush();
                PBT_CHECK(st.content() == m.data, "after a flush the resource holds " << res::show(st.content()) << " should be " << res::show(m.data));
            }
        } else if (x.text_output() && m.pos <= 3000) {
            c.note([&](auto& os) { os << j << " writes a byte order mark"; });
            Bytes b;
            put(b, {0xFEFF}, x.out);
            m.write(b);
            x.text_output()->write_bom();
        }
        PBT_CHECK(r.get_position() == m.pos, "position " << r.get_position() << ", should be " << m.pos);
        for (std::size_t q = 0; q < s.size(); ++q) {
            Member& y = s[q];
            if (auto i = y.input()) {
                PBT_CHECK(&i->grab_resource() == &r && &std::as_const(*i).grab_resource() == &r && i->operator->() == &r, "resource of stream " << q);
                PBT_CHECK(i->get_endianness() == endian(y.in.big), "byte order of stream " << q << " for input");
                if (!m.pending && m.pos <= m.size()) PBT_CHECK(i->is_at_end() == (m.pos == m.size()), "end state of stream " << q);
            }
            if (auto o = y.output()) {
                PBT_CHECK(&o->grab_resource() == &r && &std::as_const(*o).grab_resource() == &r && o->operator->() == &r, "resource of stream " << q);
                PBT_CHECK(o->get_endianness() == endian(y.out.big), "byte order of stream " << q << " for output");
                if (!m.pending && m.pos <= m.size()) PBT_CHECK(o->is_at_end() == (m.pos == m.size()), "end state of stream " << q);
            }
            if (y.text_input()) PBT_CHECK(y.text_input()->get_encoding_form() == forms[y.in.form], "encoding form of stream " << q << " for input");
            if (y.text_output()) PBT_CHECK(y.text_output()->get_encoding_form() == forms[y.out.form], "encoding form of stream " << q << " for output");
        }
    }
    c.nontrivial(used >= 2 && steps >= 4);
    s.clear();
    r.flush();
    PBT_CHECK(st.content() == m.data, "at the end the resource holds " << res::show(st.content()) << " should be " << res::show(m.data));
}
