#ifndef HXD_H
#define HXD_H
int hd(int a, int b);
#endif
