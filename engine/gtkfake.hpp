// Stand-ins for the parts of GTK the library talks to; they take the place of the real functions
// at link time. A "native window" is a Native object; nothing reaches a display.
#pragma once
#include <gtk/gtk.h>
#include <cstdarg>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include "pbt.hpp"

namespace gtkfake {
struct Signal { std::string name; void (*fn)(); void* data; bool swapped; unsigned long id; };
struct Object { GTypeInstance inst{}; int tag = 0; std::vector<Signal> signals; virtual ~Object() = default; };
struct Native;
struct Controller : Object { Native* widget = nullptr; };
struct Native : Object {
    bool alive = true, realized = false, visible = false, maximized = false, minimized = false, closing = false;
    bool has_title = false;
    std::string title;
    int w = -1, h = -1;
    std::vector<Controller*> controllers;
};
struct State {
    std::vector<std::unique_ptr<Object>> objects; // destroyed natives stay, to notice their use
    std::vector<Native*> natives;
    std::deque<std::function<void()>> queue;
    std::string complaint;
    std::function<void()> idle; // called when the loop finds nothing to do
    unsigned long loops = 0, ids = 0;
    void reset() { queue.clear(); natives.clear(); objects.clear(); complaint.clear(); idle = nullptr; loops = 0; ids = 0; }
    template <class T> T* make() { objects.push_back(std::make_unique<T>()); return static_cast<T*>(objects.back().get()); }
    unsigned alive() const { unsigned n = 0; for (auto x : natives) n += x->alive; return n; }
    void complain(const std::string& s) { if (complaint.empty()) complaint = s; }
};
inline State& st = *new State;
inline Native* native(const void* p, const char* what) {
    if (!p) return nullptr;
    for (auto n : st.natives) if (static_cast<const void*>(n) == p) {
        if (!n->alive) { st.complain(std::string(what) + " on a native window that was destroyed"); return nullptr; }
        return n;
    }
    st.complain(std::string(what) + " on something that is no window");
    return nullptr;
}
inline void destroy(Native* n) { n->alive = n->visible = n->realized = false; }
// the callbacks of one signal; gives the last result
template <class R, class... A> R emit(Object* o, const std::string& name, A... a) {
    auto list = o->signals;
    if constexpr (std::is_void_v<R>) {
        for (auto& s : list) if (s.name == name) {
            if (s.swapped) reinterpret_cast<void (*)(void*, A..., void*)>(s.fn)(s.data, a..., o); else reinterpret_cast<void (*)(void*, A..., void*)>(s.fn)(o, a..., s.data);
        }
    } else {
        R r{};
        for (auto& s : list) if (s.name == name) {
            r = s.swapped ? reinterpret_cast<R (*)(void*, A..., void*)>(s.fn)(s.data, a..., o) : reinterpret_cast<R (*)(void*, A..., void*)>(s.fn)(o, a..., s.data);
        }
        return r;
    }
}
// what a key press does; the result says whether the event was handled
inline gboolean key(Native* n, bool down, guint val, guint code = 0, GdkModifierType state = GdkModifierType(0)) {
    gboolean r = FALSE;
    for (auto c : std::vector<Controller*>(n->controllers)) {
        if (down) r = emit<gboolean, guint, guint, GdkModifierType>(c, "key-pressed", val, code, state);
        else emit<void, guint, guint, GdkModifierType>(c, "key-released", val, code, state);
    }
    return r;
}
constexpr GdkModifierType no_modifier{};
inline void present(Native* n) { n->realized = n->visible = true; }
inline void resize(Native* n, int w, int h) {
    if (w != n->w) { n->w = w; emit<void, void*>(n, "notify::default-width", nullptr); }
    if (h != n->h) { n->h = h; emit<void, void*>(n, "notify::default-height", nullptr); }
}
inline void close(Native* n) {
    if (!n->alive || !n->realized || n->closing) return;
    n->closing = true;
    gboolean keep = emit<gboolean>(n, "close-request");
    n->closing = false;
    if (!keep) destroy(n);
}
}

extern "C" {
using gtkfake::st;
GTypeInstance* g_type_check_instance_cast(GTypeInstance* i, GType) { return i; }
gboolean g_type_check_instance_is_a(GTypeInstance*, GType) { return TRUE; }
GType gtk_window_get_type() { return 4; }
GType gtk_widget_get_type() { return 8; }
GType gtk_application_get_type() { return 12; }
GType gtk_application_window_get_type() { return 16; }
GType gtk_event_controller_get_type() { return 20; }
GType gtk_event_controller_key_get_type() { return 24; }
GType g_application_get_type() { return 28; }
GType g_list_model_get_type() { return 32; }
GtkApplication* gtk_application_new(const char*, GApplicationFlags) { return reinterpret_cast<GtkApplication*>(st.make<gtkfake::Object>()); }
gboolean g_application_register(GApplication*, GCancellable*, GError**) { return TRUE; }
void g_application_activate(GApplication*) {}
void g_application_hold(GApplication*) {}
void g_application_release(GApplication*) {}
void g_application_quit(GApplication*) {}
gpointer (g_object_ref)(gpointer p) { return p; }
gpointer (g_object_ref_sink)(gpointer p) { return p; }
void g_object_unref(gpointer) {}
gulong g_signal_connect_data(gpointer o, const gchar* name, GCallback cb, gpointer data, GClosureNotify, GConnectFlags f) {
    static_cast<gtkfake::Object*>(o)->signals.push_back({name, reinterpret_cast<void (*)()>(cb), data, (f & G_CONNECT_SWAPPED) != 0, ++st.ids});
    return st.ids;
}
gulong g_signal_connect_object(gpointer o, const gchar* name, GCallback cb, gpointer data, GConnectFlags f) { return g_signal_connect_data(o, name, cb, data, nullptr, f); }
void g_signal_handler_disconnect(gpointer o, gulong id) { auto& v = static_cast<gtkfake::Object*>(o)->signals; std::erase_if(v, [&](auto& s) { return s.id == id; }); }
GtkWidget* gtk_application_window_new(GtkApplication*) {
    auto n = st.make<gtkfake::Native>();
    st.natives.push_back(n);
    return reinterpret_cast<GtkWidget*>(static_cast<gtkfake::Object*>(n));
}
void gtk_window_set_title(GtkWindow* w, const char* t) {
    if (auto n = gtkfake::native(w, "gtk_window_set_title")) { n->has_title = t != nullptr; n->title = t ? t : ""; }
}
const char* gtk_window_get_title(GtkWindow* w) {
    auto n = gtkfake::native(w, "gtk_window_get_title");
    return n && n->has_title ? n->title.c_str() : nullptr;
}
void gtk_window_set_default_size(GtkWindow* w, int a, int b) { if (auto n = gtkfake::native(w, "gtk_window_set_default_size")) gtkfake::resize(n, a, b); }
void gtk_window_get_default_size(GtkWindow* w, int* a, int* b) { if (auto n = gtkfake::native(w, "gtk_window_get_default_size")) { if (a) *a = n->w; if (b) *b = n->h; } }
void gtk_window_maximize(GtkWindow* w) { if (auto n = gtkfake::native(w, "gtk_window_maximize")) n->maximized = true; }
void gtk_window_minimize(GtkWindow* w) { if (auto n = gtkfake::native(w, "gtk_window_minimize")) n->minimized = true; }
void gtk_window_present(GtkWindow* w) { if (auto n = gtkfake::native(w, "gtk_window_present")) n->realized = n->visible = true; }
void gtk_widget_set_visible(GtkWidget* w, gboolean v) { if (auto n = gtkfake::native(w, "gtk_widget_set_visible")) { n->visible = v; if (v) n->realized = true; } }
void gtk_widget_show(GtkWidget* w) { gtk_widget_set_visible(w, TRUE); }
void gtk_widget_hide(GtkWidget* w) { gtk_widget_set_visible(w, FALSE); }
gboolean gtk_widget_is_visible(GtkWidget* w) { auto n = gtkfake::native(w, "gtk_widget_is_visible"); return n && n->visible; }
gboolean gtk_widget_get_visible(GtkWidget* w) { auto n = gtkfake::native(w, "gtk_widget_get_visible"); return n && n->visible; }
gboolean gtk_widget_get_realized(GtkWidget* w) { auto n = gtkfake::native(w, "gtk_widget_get_realized"); return n && n->realized; }
void gtk_window_close(GtkWindow* w) { if (auto n = gtkfake::native(w, "gtk_window_close")) gtkfake::close(n); }
void gtk_window_destroy(GtkWindow* w) { if (auto n = gtkfake::native(w, "gtk_window_destroy")) gtkfake::destroy(n); }
GtkEventController* gtk_event_controller_key_new() { return reinterpret_cast<GtkEventController*>(static_cast<gtkfake::Object*>(st.make<gtkfake::Controller>())); }
void gtk_widget_add_controller(GtkWidget* w, GtkEventController* c) {
    auto k = static_cast<gtkfake::Controller*>(reinterpret_cast<gtkfake::Object*>(c));
    if (auto n = gtkfake::native(w, "gtk_widget_add_controller")) { k->widget = n; n->controllers.push_back(k); }
}
void gtk_widget_remove_controller(GtkWidget* w, GtkEventController* c) {
    auto k = static_cast<gtkfake::Controller*>(reinterpret_cast<gtkfake::Object*>(c));
    if (auto n = gtkfake::native(w, "gtk_widget_remove_controller")) { k->widget = nullptr; std::erase(n->controllers, k); }
}
GtkWidget* gtk_event_controller_get_widget(GtkEventController* c) {
    auto k = static_cast<gtkfake::Controller*>(reinterpret_cast<gtkfake::Object*>(c));
    return reinterpret_cast<GtkWidget*>(static_cast<gtkfake::Object*>(k->widget));
}
GListModel* gtk_window_get_toplevels() { return reinterpret_cast<GListModel*>(&st); }
guint g_list_model_get_n_items(GListModel*) { return st.alive(); }
GMainContext* g_main_context_default() { return reinterpret_cast<GMainContext*>(&st); }
gboolean g_main_context_pending(GMainContext*) {
    if (st.queue.empty() && st.idle) st.idle();
    return !st.queue.empty();
}
void g_main_context_dispatch(GMainContext*) { if (!st.queue.empty()) { auto f = st.queue.front(); st.queue.pop_front(); f(); } }
gboolean g_main_context_iteration(GMainContext* c, gboolean) { if (!g_main_context_pending(c)) return FALSE; g_main_context_dispatch(c); return TRUE; }
}
