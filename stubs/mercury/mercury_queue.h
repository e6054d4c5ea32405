#ifndef MERCURY_QUEUE_H
#define MERCURY_QUEUE_H
#endif
