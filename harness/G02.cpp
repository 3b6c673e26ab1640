#ifdef __WINDOWS__
#include "win/winfake.hpp"
namespace fake = winfake;
#elif defined(__MACH__)
#include "mac/macfake.hpp"
namespace fake = macfake;
#else
#include "gtkfake.hpp"
namespace fake = gtkfake;
#endif
#include "uni.hpp"
#include <cmp/desktop_gui/desktop_gui_application.hpp>
#include <cmp/desktop_gui/window.hpp>
#ifndef GUI_ID
#define GUI_ID "G02"
#endif
const pbt::Info pbt_info{GUI_ID,
    "histories of opening, moving, retitling, showing, hiding, resizing and closing up to 8 window objects, directly and from the update, resize, key and close handlers during run(), with granted and "
    "vetoed close requests, over stand-ins of the window system; non-trivial: at least two windows and a close, a move or an action from a handler",
    480000, 5760000};

// the clocks the library can look at show a time that only the harness moves
namespace { long long virtual_ns = 1000000000; }
namespace std::chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(virtual_ns)); }
system_clock::time_point system_clock::now() noexcept { return time_point(duration(virtual_ns)); }
} }

namespace {
using fake::Native;
using fake::st;
#ifdef __WINDOWS__
constexpr bool mode_when_shown = true; // a window takes its mode when it is first shown
bool same_native(const cmp::window& w, Native* n) { return w.grab_native_handle().window_handle == n->handle(); }
std::u8string native_title(Native* n) { return uni::encode<std::u8string>(uni::decode16(std::wstring_view(n->title)).scalars); }
#elif defined(__MACH__)
constexpr bool mode_when_shown = false;
bool same_native(const cmp::window& w, Native* n) { return w.grab_native_handle().cmp_window_handle == static_cast<void*>(n->object); }
std::u8string native_title(Native* n) { return std::u8string(n->title.begin(), n->title.end()); }
#else
constexpr bool mode_when_shown = false;
bool same_native(const cmp::window& w, Native* n) { return w.grab_native_handle().gtk_application_window == reinterpret_cast<GtkWidget*>(static_cast<gtkfake::Object*>(n)); }
std::u8string native_title(Native* n) { return std::u8string(n->title.begin(), n->title.end()); }
#endif
struct World;
struct W : cmp::window {
    World* world;
    int id; // which model window it is; follows moves
    W(World* w, int i, int width, int height, const std::u8string& title, cmp::window_mode m) : cmp::window{width, height, title, m}, world(w), id(i) {}
    W(W&& o) noexcept : cmp::window{std::move(o)}, world(o.world), id(o.id) { o.id = -1; }
    W& operator=(W&& o) noexcept { cmp::window::operator=(std::move(o)); id = o.id; o.id = -1; return *this; }
    void update(double d, double total) override;
    void handle_key_down_event(cmp::key_event& ev) override;
    void handle_key_up_event(cmp::key_event& ev) override;
    void handle_resize_event() override;
    void handle_close_event(cmp::close_event& ev) override;
};
struct Model { bool open = false, shown = false; std::u8string title; Native* native = nullptr; long long opened = 0, last = 0; unsigned updates = 0, moves = 0; int mode = 0; bool first = true; };
struct Seen { char kind; W* object; };
struct World {
    pbt::Tape& t;
    pbt::Case& c;
    std::vector<std::unique_ptr<W>> w;
    std::vector<Model> m; // by id
    std::vector<Seen> log;
    std::vector<std::unique_ptr<W>> old; // moved from; kept until the end: the library is free to look at them
    std::vector<W*> active; // whose handlers are running
    bool moved = false;
    bool in_run = false, quiet = false;
    unsigned depth = 0, actions = 0, opened = 0;
    int veto = 0; // how many close requests are refused next
    std::string problem;
    bool interesting = false;

    void bad(const std::string& s) { if (problem.empty()) problem = s; }
    W* owner(int id) { for (auto& x : w) if (x && x->id == id) return x.get(); return nullptr; }
    int any_open() { std::vector<int> v; for (std::size_t i = 0; i < m.size(); ++i) if (m[i].open && owner(static_cast<int>(i))) v.push_back(static_cast<int>(i)); return v.empty() ? -1 : v[t.draw(v.size())]; }
    std::u8string gen_title() {
        std::u8string s;
        static const char8_t* pieces[] = {u8"a", u8"Z", u8" ", u8"é", u8"ツ", u8"😀", u8"0"};
        if (t.chance(1, 24)) { const char8_t* p = pieces[t.draw(7)]; for (std::size_t n = t.draw(700); n--;) s += p; }
        for (std::size_t n = t.length(8); n--;) s += pieces[t.draw(7)];
        return s;
    }
    void open_new() {
        if (w.size() >= 8) return;
        int id = static_cast<int>(m.size());
        auto title = gen_title();
        int ww = 1 + static_cast<int>(t.draw(2000)), hh = 1 + static_cast<int>(t.draw(2000));
        int mode = static_cast<int>(t.draw(3));
        static const cmp::window_mode modes[] = {cmp::window_mode::standard, cmp::window_mode::maximized, cmp::window_mode::minimized};
        c.note([&](auto& os) { os << "open " << id; });
        std::size_t before = st.natives.size();
        m.push_back({});
        w.push_back(std::make_unique<W>(this, id, ww, hh, title, modes[mode]));
        opened_checks(id, before, title, ww, hh, mode);
    }
    void opened_checks(int id, std::size_t before, const std::u8string& title, int ww, int hh, int mode) {
        if (st.natives.size() != before + 1) { bad("opening made " + std::to_string(st.natives.size() - before) + " native windows"); return; }
        Native* n = st.natives.back();
        m[static_cast<std::size_t>(id)] = {true, false, title, n, virtual_ns, virtual_ns, 0, 0, mode};
        if (n->w != ww || n->h != hh) bad("size of the new window");
        check_mode(n, mode, false);
        ++opened;
    }
    void check_mode(Native* n, int mode, bool shown) {
        if (mode_when_shown != shown) return;
        if (n->maximized != (mode == 1) || n->minimized != (mode == 2)) bad("mode of the window");
    }
    void show(int id) {
        auto& x = m[static_cast<std::size_t>(id)];
        Native* n = x.native;
        bool first = x.first && !n->visible;
        int mode = x.mode;
        x.first = false;
        x.shown = true;
        unsigned before = actions;
        owner(id)->show();
        if (actions != before) return; // a handler may have done anything to it
        if (!n->visible) bad("not shown");
        if (first) check_mode(n, mode, true);
    }
    void set_title(int id) {
        W* o = owner(id);
        auto s = gen_title();
        c.note([&](auto& os) { os << "title " << id; });
        o->set_title(s);
        m[static_cast<std::size_t>(id)].title = s;
    }
    void move(int id) { // to a new object
        for (auto& p : w) {
            if (!p || p->id != id) continue;
            if (std::find(active.begin(), active.end(), p.get()) != active.end()) return;
            c.note([&](auto& os) { os << "move " << id; });
            auto q = std::make_unique<W>(std::move(*p));
            old.push_back(std::move(p));
            p = std::move(q);
            ++m[static_cast<std::size_t>(id)].moves;
            moved = true;
            return;
        }
    }
    void assign(int id) { // to an object without a window
        W* o = owner(id);
        if (std::find(active.begin(), active.end(), o) != active.end()) return;
        for (auto& p : w) {
            if (!p || p.get() == o || (p->id >= 0 && m[static_cast<std::size_t>(p->id)].open)) continue;
            if (std::find(active.begin(), active.end(), p.get()) != active.end()) continue;
            c.note([&](auto& os) { os << "assign " << id << " over " << p->id; });
            *p = std::move(*o);
            ++m[static_cast<std::size_t>(id)].moves;
            moved = true;
            c.label("assigned");
            return;
        }
    }
    // close through the object; the model follows in handle_close_event
    void close(int id) { c.note([&](auto& os) { os << "close " << id; }); interesting = true;
        W* o = owner(id);
        std::size_t before = log.size();
        Native* n = m[static_cast<std::size_t>(id)].native;
        bool realized = n->realized && !n->closing; // the window system ignores the rest
        o->close();
        if (!realized) return;
        if (std::none_of(log.begin() + static_cast<long>(std::min(before, log.size())), log.end(), [&](auto& e) { return e.kind == 'c' && e.object == o; })) bad("close() of window " + std::to_string(id) + " asked nobody");
    }
    void act(W* self) { // from a handler
        if (quiet || depth > 2 || actions >= 40) return;
        ++actions;
        ++depth;
        active.push_back(self);
        int other = any_open();
        switch (t.weighted({6, 2, 2, 2, 2, 1, 1, 1, 1})) {
            case 0: break;
            case 1: if (self->id >= 0 && m[static_cast<std::size_t>(self->id)].open) set_title(self->id); break;
            case 2: if (self->id >= 0 && m[static_cast<std::size_t>(self->id)].open) close(self->id); break;
            case 3: if (other >= 0) close(other); break;
            case 4: interesting = true; open_new(); break;
            case 5: if (other >= 0) show(other); break;
            case 6: if (other >= 0) owner(other)->hide(); break;
            case 7: if (other >= 0) move(other); break;
            default: if (other >= 0) assign(other);
        }
        active.pop_back();
        --depth;
    }
    void check() {
        PBT_CHECK(problem.empty(), problem);
        PBT_CHECK(st.complaint.empty(), st.complaint);
        for (std::size_t i = 0; i < m.size(); ++i) {
            auto& x = m[i];
            W* o = owner(static_cast<int>(i));
            if (x.native) PBT_CHECK(x.native->alive == x.open, "window " << i << (x.open ? " is gone" : " is still there"));
            if (!x.open || !o) continue;
            PBT_CHECK(o->get_title() == x.title, "title of window " << i);
            PBT_CHECK(native_title(x.native) == x.title, "native title of window " << i);
            PBT_CHECK(same_native(*o, x.native), "native handle of window " << i);
        }
    }
};
void W::update(double d, double total) {
    world->log.push_back({'u', this});
    if (id < 0 || !world->m[static_cast<std::size_t>(id)].open) { world->bad("update of a window that is not open"); return; }
    auto& x = world->m[static_cast<std::size_t>(id)];
    if (std::abs(total - (virtual_ns - x.opened) / 1e9) > 1e-6) world->bad("an update got " + std::to_string(total) + " as the time since opening");
    if (std::abs(d - (virtual_ns - x.last) / 1e9) > 1e-6) world->bad("an update got " + std::to_string(d) + " as the time since the last update");
    x.last = virtual_ns;
    ++x.updates;
    world->act(this);
}
void W::handle_key_down_event(cmp::key_event&) { world->log.push_back({'d', this}); world->act(this); }
void W::handle_key_up_event(cmp::key_event&) { world->log.push_back({'k', this}); world->act(this); }
void W::handle_resize_event() { world->log.push_back({'r', this}); world->act(this); }
void W::handle_close_event(cmp::close_event& ev) {
    world->log.push_back({'c', this});
    if (id < 0 || !world->m[static_cast<std::size_t>(id)].open) { world->bad("close request to a window that is not open"); return; }
    if (!ev.should_close() || ev.get_event_type() != cmp::event_type::close_event) world->bad("close request comes refused");
    int self = id;
    world->act(this);
    bool agreed = true;
    if (!world->quiet && world->t.chance(1, 4)) { ev.set_should_close(false); agreed = false; if (world->t.chance(1, 4)) { ev.set_should_close(true); agreed = true; } }
    if (ev.should_close() != agreed) world->bad("the close request does not keep the answer given");
    if (agreed) { auto& x = world->m[static_cast<std::size_t>(self)]; x.open = false; }
}
}

void pbt_property(pbt::Tape& t, pbt::Case& c) {
    st.reset();
    static char a0[] = "p";
    static char* av[] = {a0, nullptr};
    cmp::desktop_gui_application app{1, av};
    PBT_CHECK(cmp::dgui_app() == &app && cmp::app() == &app, "the application object");
    World x{t, c};
    auto deliver = [&](int id, int kind) { // an event of the window system; gives whom it must reach
        Native* n = x.m[static_cast<std::size_t>(id)].native;
        switch (kind) {
            case 0: fake::key(n, true, 'a', static_cast<std::uint32_t>(t.bits(32))); break;
            case 1: fake::key(n, false, 'a', static_cast<std::uint32_t>(t.bits(32))); break;
            case 2: fake::resize(n, n->w + 1 + static_cast<int>(t.draw(3)), n->h); break;
            case 3: fake::resize(n, n->w, n->h + 1); break;
            default: fake::close(n);
        }
    };
    static const char kinds[] = "dkrrc";
    virtual_ns = 1000000000;
    std::size_t steps = t.length(20);
    bool closed = false;
    for (std::size_t k = 0; k < steps; ++k) {
        int id = x.any_open();
        switch (id < 0 ? 0 : static_cast<int>(t.weighted({4, 5, 2, 2, 1, 2, 2, 2, 1}))) {
            case 0: x.open_new(); break;
            case 1: { // event
                int kind = static_cast<int>(t.draw(5));
                Native* n = x.m[static_cast<std::size_t>(id)].native;
                W* o = x.owner(id);
                c.note([&](auto& os) { os << "event " << kind << " for " << id; });
                x.log.clear();
                bool realized = n->realized;
                deliver(id, kind);
                if (kind == 4 && !realized) { PBT_CHECK(x.log.empty()); break; }
                PBT_CHECK(!x.log.empty() && x.log[0].kind == kinds[kind] && x.log[0].object == o, "event " << kinds[kind] << " for window " << id << " went " << (x.log.empty() ? "nowhere" : "elsewhere"));
                closed |= kind == 4;
                break;
            }
            case 2: x.set_title(id); break;
            case 3: c.note([&](auto& os) { os << "show " << id; }); x.show(id); break;
            case 4: c.note([&](auto& os) { os << "hide " << id; }); x.owner(id)->hide(); PBT_CHECK(!x.m[static_cast<std::size_t>(id)].native->visible, "not hidden"); break;
            case 5: x.move(id); break;
            case 6: x.assign(id); break;
            case 7: x.close(id); closed = true; break;
            default: { // open again
                for (auto& p : x.w) {
                    if (!p) continue;
                    int i = p->id;
                    auto title = x.gen_title();
                    std::size_t before = st.natives.size();
                    if (i >= 0 && x.m[static_cast<std::size_t>(i)].open) {
                        if (t.chance(1, 2)) continue;
                        c.note([&](auto& os) { os << "open " << i << " that is open"; });
                        PBT_CHECK(!p->open(5, 5, title, cmp::window_mode::standard), "an open window was opened again");
                        PBT_CHECK(st.natives.size() == before, "another native window appeared");
                    } else if (i >= 0) {
                        c.note([&](auto& os) { os << "open " << i << " again"; });
                        PBT_CHECK(p->open(7, 8, title, cmp::window_mode::standard), "a closed window could not be opened again");
                        x.opened_checks(i, before, title, 7, 8, 0);
                        c.label("opened again");
                    } else continue;
                    break;
                }
            }
        }
        x.check();
        if (t.chance(1, 3)) virtual_ns += static_cast<long long>(t.draw(t.chance(1, 8) ? 300000000 : 5000)) * 1000000;
    }
    // run until every window is closed
    for (std::size_t i = 0; i < x.m.size(); ++i) if (x.m[i].open) x.show(static_cast<int>(i));
    unsigned loops = 0, idle_limit = 3 + static_cast<unsigned>(t.draw(6));
    x.in_run = true;
    // which windows are due an update: id, native window, updates so far, idle rounds waited
    struct Due { int id; Native* n; unsigned before, moves; int waited; };
    std::vector<Due> due;
    auto idle = [&] {
        ++loops;
        x.log.clear();
        virtual_ns += static_cast<long long>(x.quiet ? 1 : t.draw(2000)) * 1000000;
        if (loops == 1000) { x.bad("run() does not end"); }
        PBT_CHECK(loops < 1100, "run() does not end");
        if (loops >= 1000) { for (auto n : st.natives) fake::destroy(n); return; }
        if (loops > idle_limit) { // the user closes everything
            x.quiet = true;
            for (std::size_t i = 0; i < x.m.size(); ++i) if (x.m[i].open && !x.m[i].native->realized) x.show(static_cast<int>(i));
            for (std::size_t i = 0; i < x.m.size(); ++i) if (x.m[i].open) { int id = static_cast<int>(i); st.queue.push_back([&, id] { if (x.m[static_cast<std::size_t>(id)].open) deliver(id, 4); }); break; }
            return;
        }
        if (t.chance(1, 2)) {
            int id = x.any_open(), kind = static_cast<int>(t.draw(7));
            if (id >= 0) st.queue.push_back([&, id, kind] {
                if (!x.m[static_cast<std::size_t>(id)].open) return;
                if (kind == 5) { x.move(id); return; }
                if (kind == 6) { x.assign(id); return; }
                W* o = x.owner(id);
                bool realized = x.m[static_cast<std::size_t>(id)].native->realized;
                x.log.clear();
                deliver(id, kind);
                if (kind == 4 && !realized) return;
                if (x.log.empty() || x.log[0].kind != kinds[kind] || x.log[0].object != o) x.bad(std::string("event ") + kinds[kind] + " for window " + std::to_string(id) + " during run() went " + (x.log.empty() ? "nowhere" : "elsewhere"));
            });
        }
    };
    st.idle = [&] {
        idle();
        if (!st.queue.empty()) return;
        std::erase_if(due, [&](Due& u) { auto& q = x.m[static_cast<std::size_t>(u.id)]; return !q.open || q.native != u.n || q.updates > u.before || q.moves > u.moves; });
        for (auto& u : due) if (++u.waited == 3) x.bad("window " + std::to_string(u.id) + " gets no updates");
        for (std::size_t i = 0; i < x.m.size(); ++i)
            if (x.m[i].open && std::none_of(due.begin(), due.end(), [&](Due& u) { return u.id == static_cast<int>(i); })) due.push_back({static_cast<int>(i), x.m[i].native, x.m[i].updates, x.m[i].moves, 0});
    };
    c.nontrivial(x.opened >= 2 && (x.moved || closed || x.interesting));
    c.label_if(x.moved, "moved"); c.label_if(closed, "closed"); c.label_if(x.interesting, "actions from handlers");
    int rc = app.run();
    st.idle = nullptr;
    x.quiet = true;
    x.check();
    PBT_CHECK(rc == 0, "run() gave " << rc);
    PBT_CHECK(st.alive() == 0, "run() ended with " << st.alive() << " windows left");
}
