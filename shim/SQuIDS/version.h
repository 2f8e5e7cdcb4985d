#ifndef SQUIDS_VERSION_H
#define SQUIDS_VERSION_H
#define SQUIDS_VERSION 102000
#define SQUIDS_VERSION_STR "1.2.0"
#endif
