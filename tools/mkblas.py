"""writes harness/blas_list.h: the wrapped routines with their reference signatures
(argument kinds as in the reference BLAS, checked against OpenBLAS' f77blas.h for the number of arguments and the result)"""
import re, sys
REPO='/repo/'
L=[]
hdr=open('/usr/include/x86_64-linux-gnu/f77blas.h').read() if len(sys.argv)<2 else ''
com=open('/repo/include/BlasBooster/BlasInterface/BlasInterface_OpenBLAS.h').read()
mkl=open('/repo/include/BlasBooster/BlasInterface/BlasInterface_IntelMKL.h').read()
def wr(txt, tag):
    return re.findall(r'struct BlasInterface <%s, (\w+)>\s*\{\s*(.*?) operator\(\) \((.*?)\) const;'%tag, txt, re.S)
R={'float':'FLOATRET','double':'double','int':'int','void':'void'}
out=['// routine, result, parameters, arguments, number of arguments']
bad=[]
for mac,txt,tag in (('BLAS',com,'OpenBLAS'),('SPBLAS',mkl,'IntelMKL')):
    done={x[0] for x in L}
    for n,r,p in wr(txt,tag):
        if mac=='SPBLAS' and n in done: continue
        L.append((n,))
        ps=[re.sub(r'\s*\w+$','',x.strip()) for x in p.split(',')]
        m=re.search(r'(\w+)\s+BLASFUNC\(%s\)\s*\((.*?)\);'%n, hdr, re.S)
        if mac=='BLAS':
            if not m: bad.append((n,'not in f77blas.h'))
            else:
                k=len(m.group(2).split(','))
                if k!=len(ps) or (r in R and R[r]!=m.group(1)): bad.append((n,r,len(ps),m.group(1),k))
        kind='CDOT' if r.startswith('std::complex') else mac
        out.append('%s(%s, %s, (%s), (%s), %d)'%(kind,n,r,', '.join('%s v%d'%(t,i) for i,t in enumerate(ps)),', '.join('v%d'%i for i in range(len(ps))),len(ps)))
open('/verif/harness/blas_list.h','w').write('\n'.join(out)+'\n')
print(len(out)-1); print(*bad,sep='\n')
