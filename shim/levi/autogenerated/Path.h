#ifndef LEVI_PATH_H
#define LEVI_PATH_H
#define LEVI_SOURCE_DIR "/nonexistent"
#define LEVI_AUTOGENERATED_DIR "/nonexistent"
#endif
