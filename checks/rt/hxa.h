#ifndef HXA_H
#define HXA_H
#ifdef __cplusplus
extern "C" {
#endif
int hx_i(int a, int b);
void hx_v(void);
int hx_vv(void);
#ifdef __cplusplus
}
#endif
#endif
