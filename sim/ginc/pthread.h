/* Stand-in for cross compilation: the operations need nothing from it. */
#ifndef GUEST_PTHREAD_H
#define GUEST_PTHREAD_H
#endif
