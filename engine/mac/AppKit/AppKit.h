// Stand-in for the part of AppKit and Foundation the library uses (declarations; see macfake.hpp for the rest).
#pragma once
#include <objc/objc.h>
#include <objc/runtime.h>
#undef nil
#define nil ((id)0)
using CGFloat = double;
using NSUInteger = unsigned long;
using NSInteger = long;
struct CGPoint { CGFloat x, y; };
struct CGSize { CGFloat width, height; };
struct CGRect { CGPoint origin; CGSize size; };
using NSPoint = CGPoint;
using NSSize = CGSize;
using NSRect = CGRect;
inline NSRect NSMakeRect(CGFloat x, CGFloat y, CGFloat w, CGFloat h) { return {{x, y}, {w, h}}; }
enum : NSUInteger { NSWindowStyleMaskBorderless = 0, NSWindowStyleMaskTitled = 1, NSWindowStyleMaskClosable = 2, NSWindowStyleMaskMiniaturizable = 4, NSWindowStyleMaskResizable = 8 };
using NSWindowStyleMask = NSUInteger;
enum NSBackingStoreType : NSUInteger { NSBackingStoreRetained = 0, NSBackingStoreNonretained = 1, NSBackingStoreBuffered = 2 };
enum NSApplicationActivationPolicy : NSInteger { NSApplicationActivationPolicyRegular, NSApplicationActivationPolicyAccessory, NSApplicationActivationPolicyProhibited };
using NSEventMask = unsigned long long;
inline constexpr NSEventMask NSEventMaskAny = ~0ull;

@protocol NSObject
@end
__attribute__((objc_root_class))
@interface NSObject <NSObject> {
@public
    Class isa;
    long m_extra_references;
}
+ (void) initialize;
+ (instancetype) alloc;
+ (instancetype) new;
+ (Class) class;
- (instancetype) init;
- (instancetype) retain;
- (void) release;
- (instancetype) autorelease;
- (void) dealloc;
- (Class) class;
- (BOOL) respondsToSelector: (SEL) s;
@end

@interface NSString : NSObject {
@public
    char* m_text;
}
+ (instancetype) stringWithUTF8String: (const char*) text;
- (instancetype) initWithUTF8String: (const char*) text;
- (const char*) UTF8String;
- (NSUInteger) length;
@end
using NSRunLoopMode = NSString*;
extern NSRunLoopMode NSDefaultRunLoopMode;

@interface NSDate : NSObject
+ (NSDate*) distantPast;
+ (NSDate*) distantFuture;
@end

@interface NSEvent : NSObject {
@public
    unsigned short m_key_code;
    void* m_action;
}
- (unsigned short) keyCode;
@end

@interface NSNotification : NSObject {
@public
    id m_object;
}
- (id) object;
@end

@class NSWindow;
@class NSApplication;
@protocol NSWindowDelegate <NSObject>
@optional
- (void) windowDidResize: (NSNotification*) notification;
- (BOOL) windowShouldClose: (NSWindow*) sender;
- (void) windowWillClose: (NSNotification*) notification;
@end
@protocol NSApplicationDelegate <NSObject>
@optional
- (void) applicationWillFinishLaunching: (NSNotification*) notification;
- (void) applicationDidFinishLaunching: (NSNotification*) notification;
- (BOOL) applicationShouldTerminateAfterLastWindowClosed: (NSApplication*) sender;
@end

@interface NSWindow : NSObject {
@public
    void* m_native;
    id m_delegate;
    NSString* m_title;
    BOOL m_released_when_closed;
}
- (instancetype) initWithContentRect: (NSRect) rect styleMask: (NSWindowStyleMask) mask backing: (NSBackingStoreType) backing defer: (BOOL) defer;
- (void) setDelegate: (id<NSWindowDelegate>) delegate;
- (id<NSWindowDelegate>) delegate;
- (void) setTitle: (NSString*) title;
- (NSString*) title;
- (void) setReleasedWhenClosed: (BOOL) flag;
- (BOOL) isReleasedWhenClosed;
- (void) center;
- (void) zoom: (id) sender;
- (BOOL) isZoomed;
- (void) miniaturize: (id) sender;
- (BOOL) isMiniaturized;
- (BOOL) isVisible;
- (void) makeKeyAndOrderFront: (id) sender;
- (void) orderFront: (id) sender;
- (void) orderOut: (id) sender;
- (void) performClose: (id) sender;
- (void) close;
- (void) keyDown: (NSEvent*) event;
- (void) keyUp: (NSEvent*) event;
@end

@interface NSApplication : NSObject {
@public
    id m_delegate;
}
+ (NSApplication*) sharedApplication;
- (void) setDelegate: (id<NSApplicationDelegate>) delegate;
- (void) finishLaunching;
- (BOOL) setActivationPolicy: (NSApplicationActivationPolicy) policy;
- (void) activateIgnoringOtherApps: (BOOL) flag;
- (NSEvent*) nextEventMatchingMask: (NSEventMask) mask untilDate: (NSDate*) date inMode: (NSRunLoopMode) mode dequeue: (BOOL) dequeue;
- (void) sendEvent: (NSEvent*) event;
- (void) updateWindows;
@end
extern NSApplication* NSApp;
