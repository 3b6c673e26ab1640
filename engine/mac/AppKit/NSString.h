#include <AppKit/AppKit.h>
