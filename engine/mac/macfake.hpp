// Stand-ins for the windows and the application of macOS the library talks to. A "native window" is a Native object.
#pragma once
#include "pbt.hpp"
#include <AppKit/AppKit.h>
#include <cstdlib>
#include <deque>
#include <functional>
#include <memory>
#include <string>
#include <vector>

// clang unwinds Objective-C++ for this runtime with a routine that knows no C++ exceptions; this one takes its place
extern "C" int __gxx_personality_v0(int, int, unsigned long long, void*, void*);
extern "C" int __gnu_objc_personality_v0(int a, int b, unsigned long long c, void* d, void* e) { return __gxx_personality_v0(a, b, c, d, e); }

namespace macfake {
struct Native {
    bool alive = true, realized = true, visible = false, maximized = false, minimized = false, closing = false;
    std::string title;
    int w = -1, h = -1;
    NSWindow* object = nullptr;
};
struct State {
    std::vector<std::unique_ptr<Native>> objects; // destroyed natives stay, to notice their use
    std::vector<Native*> natives;
    std::vector<id> made; // every object; freed at the end of a case
    std::deque<std::function<void()>> queue;
    std::string complaint;
    std::function<void()> idle;
    void reset() {
        queue.clear(); natives.clear(); objects.clear(); complaint.clear(); idle = nullptr;
        for (id x : made) { for (Class c = object_getClass(x); c; c = class_getSuperclass(c)) if (c == [NSString class]) std::free(((NSString*)x)->m_text); object_dispose(x); }
        made.clear();
    }
    unsigned alive() const { unsigned n = 0; for (auto x : natives) n += x->alive; return n; }
    void complain(const std::string& s) { if (complaint.empty()) complaint = s; }
};
inline State& st = *new State;
inline Native* native(NSWindow* w, const char* what) {
    auto n = static_cast<Native*>(w->m_native);
    if (n && n->alive) return n;
    st.complain(std::string(what) + (n ? " on a window that was closed and released" : " on a window that was not initialized"));
    return nullptr;
}
inline void gone(Native* n) { n->alive = n->visible = n->realized = false; }
inline void destroy(Native* n) { gone(n); }
inline NSNotification* notification(id object) { NSNotification* x = [[NSNotification alloc] init]; x->m_object = object; return x; }
inline void key(Native* n, bool down, std::uint32_t val, std::uint32_t = 0, std::uint32_t = 0) {
    NSEvent* e = [[NSEvent alloc] init];
    e->m_key_code = static_cast<unsigned short>(val);
    if (down) [n->object keyDown: e]; else [n->object keyUp: e];
}
inline void resized(Native* n) {
    id d = n->object->m_delegate;
    if (d && [d respondsToSelector: @selector(windowDidResize:)]) [d windowDidResize: notification(n->object)];
}
inline void resize(Native* n, int w, int h) { n->w = w; n->h = h; resized(n); }
inline void close(Native* n) { if (n->alive) [n->object performClose: nil]; }
inline void present(Native* n) { n->visible = true; }
constexpr std::uint32_t no_modifier{};
}

NSApplication* NSApp = nil;
NSRunLoopMode NSDefaultRunLoopMode = nil;

@implementation NSObject
+ (void) initialize {}
+ (instancetype) alloc { id x = class_createInstance(self, 0); macfake::st.made.push_back(x); return x; }
+ (instancetype) new { return [[self alloc] init]; }
+ (Class) class { return self; }
- (instancetype) init { return self; }
- (instancetype) retain { ++m_extra_references; return self; }
- (void) release { if (m_extra_references-- == 0) [self dealloc]; }
- (instancetype) autorelease { return self; }
- (void) dealloc {}
- (Class) class { return object_getClass(self); }
- (BOOL) respondsToSelector: (SEL) s { return class_respondsToSelector(object_getClass(self), s); }
@end

@implementation NSString
+ (instancetype) stringWithUTF8String: (const char*) text { return [[self alloc] initWithUTF8String: text]; }
- (instancetype) initWithUTF8String: (const char*) text {
    if (!text) { macfake::st.complain("a string made of a null pointer"); text = ""; }
    m_text = strdup(text);
    return self;
}
- (const char*) UTF8String { return m_text; }
- (NSUInteger) length { return std::strlen(m_text); }
@end

@implementation NSDate
+ (NSDate*) distantPast { static NSDate* d = (NSDate*)class_createInstance(self, 0); return d; }
+ (NSDate*) distantFuture { static NSDate* d = (NSDate*)class_createInstance(self, 0); return d; }
@end

@implementation NSEvent
- (unsigned short) keyCode { return m_key_code; }
@end

@implementation NSNotification
- (id) object { return m_object; }
@end

@implementation NSWindow
- (instancetype) initWithContentRect: (NSRect) rect styleMask: (NSWindowStyleMask) mask backing: (NSBackingStoreType) backing defer: (BOOL) defer {
    auto& s = macfake::st;
    s.objects.push_back(std::make_unique<macfake::Native>());
    auto n = s.objects.back().get();
    n->w = static_cast<int>(rect.size.width);
    n->h = static_cast<int>(rect.size.height);
    n->object = self;
    s.natives.push_back(n);
    m_native = n;
    m_delegate = nil;
    m_title = nil;
    m_released_when_closed = YES;
    return self;
}
- (void) setDelegate: (id<NSWindowDelegate>) delegate { if (macfake::native(self, "setDelegate")) m_delegate = delegate; }
- (id<NSWindowDelegate>) delegate { return m_delegate; }
- (void) setTitle: (NSString*) title {
    auto n = macfake::native(self, "setTitle");
    if (!n) return;
    if (!title) { macfake::st.complain("a title of nil"); return; }
    n->title = [title UTF8String];
    m_title = [NSString stringWithUTF8String: n->title.c_str()];
}
- (NSString*) title { return macfake::native(self, "title") ? (m_title ? m_title : [NSString stringWithUTF8String: "Window"]) : [NSString stringWithUTF8String: ""]; }
- (void) setReleasedWhenClosed: (BOOL) flag { m_released_when_closed = flag; }
- (BOOL) isReleasedWhenClosed { return m_released_when_closed; }
- (void) center { macfake::native(self, "center"); }
- (void) zoom: (id) sender { if (auto n = macfake::native(self, "zoom")) { n->maximized = !n->maximized; macfake::resized(n); } }
- (BOOL) isZoomed { auto n = macfake::native(self, "isZoomed"); return n && n->maximized; }
- (void) miniaturize: (id) sender { if (auto n = macfake::native(self, "miniaturize")) n->minimized = true; }
- (BOOL) isMiniaturized { auto n = macfake::native(self, "isMiniaturized"); return n && n->minimized; }
- (BOOL) isVisible { auto n = macfake::native(self, "isVisible"); return n && n->visible; }
- (void) makeKeyAndOrderFront: (id) sender { if (auto n = macfake::native(self, "makeKeyAndOrderFront")) n->visible = true; }
- (void) orderFront: (id) sender { if (auto n = macfake::native(self, "orderFront")) n->visible = true; }
- (void) orderOut: (id) sender { if (auto n = macfake::native(self, "orderOut")) n->visible = false; }
- (void) performClose: (id) sender {
    auto n = macfake::native(self, "performClose");
    if (!n) return;
    if (m_delegate && [m_delegate respondsToSelector: @selector(windowShouldClose:)] && ![m_delegate windowShouldClose: self]) return;
    if (!n->alive) { macfake::st.complain("a window that was closed by its close event handler is closed again"); return; }
    [self close];
}
- (void) close {
    auto n = macfake::native(self, "close");
    if (!n) return;
    if (m_delegate && [m_delegate respondsToSelector: @selector(windowWillClose:)]) [m_delegate windowWillClose: macfake::notification(self)];
    if (m_released_when_closed) [self release]; else n->visible = false;
}
- (void) dealloc { if (m_native) macfake::gone(static_cast<macfake::Native*>(m_native)); }
- (void) keyDown: (NSEvent*) event {}
- (void) keyUp: (NSEvent*) event {}
@end

@implementation NSApplication
+ (NSApplication*) sharedApplication { if (!NSApp) NSApp = (NSApplication*)class_createInstance(self, 0); return NSApp; }
- (void) setDelegate: (id<NSApplicationDelegate>) delegate { m_delegate = delegate; }
- (void) finishLaunching {
    if (m_delegate && [m_delegate respondsToSelector: @selector(applicationWillFinishLaunching:)]) [m_delegate applicationWillFinishLaunching: macfake::notification(self)];
    if (m_delegate && [m_delegate respondsToSelector: @selector(applicationDidFinishLaunching:)]) [m_delegate applicationDidFinishLaunching: macfake::notification(self)];
}
- (BOOL) setActivationPolicy: (NSApplicationActivationPolicy) policy { return YES; }
- (void) activateIgnoringOtherApps: (BOOL) flag {}
- (NSEvent*) nextEventMatchingMask: (NSEventMask) mask untilDate: (NSDate*) date inMode: (NSRunLoopMode) mode dequeue: (BOOL) dequeue {
    auto& s = macfake::st;
    if (s.queue.empty() && s.idle) s.idle();
    if (s.queue.empty()) return nil;
    NSEvent* e = [[NSEvent alloc] init];
    e->m_action = new std::function<void()>(s.queue.front());
    if (dequeue) s.queue.pop_front();
    return e;
}
- (void) sendEvent: (NSEvent*) event {
    std::unique_ptr<std::function<void()>> f(static_cast<std::function<void()>*>(event->m_action));
    event->m_action = nullptr;
    if (f) (*f)();
}
- (void) updateWindows {}
@end
