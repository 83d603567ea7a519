/* Stand-in for the Apple header. */
#ifndef TARGET_OS_IPHONE
#define TARGET_OS_IPHONE 0
#endif
