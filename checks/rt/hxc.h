#ifndef HXC_H
#define HXC_H
int hx_f(int a, int b);
class HxK
{
public:
  int m(int a);
};
#endif
