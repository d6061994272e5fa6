#ifndef HXE_H
#define HXE_H
int he(void);
#endif
