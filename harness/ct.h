#ifndef CT_H
#define CT_H
void ct_on(void);
void ct_off(void);
void ct_start(int index);
void ct_report(void);
#endif
