import bytes_checks as b
import conc_checks as k
import core_checks as c
import expo_checks as x
import listen_checks as l
import pull_checks as p
import pullconc_checks as pcc
import push_checks as u
import pushconc_checks as uc
import window_checks as w
CHECKS = dict(C01=k.c01, C05=k.c05, C06=k.c06, C12=k.c12, C17=k.c17, C18=k.c18, C02=c.c02, C03=c.c03, C04=c.c04, C07=w.c07, C08=w.c08, C09=c.c09, C10=c.c10, C11=c.c11, C13=b.c13, C14=c.c14, C15=x.c15, C16=x.c16, C19=p.c19, C20=pcc.c20, C25=pcc.c25, C21=p.c21, C22=p.c22, C23=p.c23, C24=p.c24, C26=u.c26, C27=u.c27, C28=u.c28, C29=uc.c29, C30=u.c30, C31=b.c31, C32=l.c32)
