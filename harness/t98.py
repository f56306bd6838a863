"""Array methods and idioms in the numpy stand-in against numpy itself."""
import numpy as np
ID = "T98"      # self-test of the numpy stand-in: `./check T98 quick`; not a registered check
BOUNDS = "one fixed argument tuple per expression"
STUBS = "none"
E=dict(
 repeat="v.repeat(2)", take="v.take([0,2])", dot="v.dot(w)", mm="A@B.T", mv="A@v[:3]", vv="v@w", cumprod="v.cumprod()", trace="A.trace()", nz="(v>0).nonzero()", clip="v.clip(-1,2)",rnd="v.round()",
 tolist="v.tolist()", item="v[1].item()", sa="A.swapaxes(0,1)", sq="A[:,:1].squeeze()", conj="v.conj()", mean="A.mean(axis=1)", std="v.std()", var="v.var()", diag="A.diagonal()", fl="A.flatten()", rav="A.ravel()", ast="v.astype(int)", ast2="v.astype(np.float64)", T="A.T", flat="list(A.flat)", re="A.reshape(-1)", re2="A.reshape((3,2))", am="A.argmax()", am1="A.argmin(axis=1)", ss="np.array([0.,1.,2.]).searchsorted(v)", srt="np.sort(v)", arr="np.add.reduce(A,axis=0)", ao="np.add.outer(v,w)", acc="np.maximum.accumulate(v)", acc2="np.add.accumulate(v)", mo="np.multiply.outer(v,w)", subo="np.subtract.outer(v,w)", lor="np.logical_or.reduce(A>0)", lar="np.logical_and.reduce(A>0,axis=0)", mred="np.maximum.reduce(A,axis=1)", lstsum="sum(v)", pymax="max(v)", pymin="min(list(v))", srted="sorted(v)", zipd="[a*b for a,b in zip(v,w)]", any="any(x>0 for x in v)", neg="-v", ab="abs(v)", pw="v**2", rp="2-v", rd="1/w", fd="v//w", md="v%w", iadd="iadd(v,w)", out="np.add(v,w,out=np.zeros(4))", s1="A[...,0]", s2="A[::-1]", s3="A[:,None,:]", s4="A[[0,1],[1,2]]", s5="v[v>0]", s6="A[np.array([True,False])]", s7="A[:, np.array([2,0])]", set1="setit(v.copy(), slice(1,3), 0.)", set2="setit(v.copy(), v<0, 0.)", sh="list(A.shape)", sz="A.size", nd="A.ndim", ln="len(A)", cont="2. in v.tolist()", wh="np.where(v>0)[0]", enum="[i*x for i,x in enumerate(v)]", ndin="[A[i] for i in np.ndindex(*A.shape)]", ndit="[x for x in np.nditer(A)]", nde="[x for _,x in np.ndenumerate(A)]", rsum="A.sum(axis=(0,1))", ksum="A.sum(axis=-1,keepdims=True)", kmean="np.mean(A,axis=0,keepdims=True)", nrm="np.linalg.norm(v)", nrm2="np.linalg.norm(A,axis=0)", nrm3="np.linalg.norm(A,axis=1,keepdims=True)", sqs="np.sqrt(np.sum(v**2))", allc="np.allclose(v,v+1e-12)", arreq="np.array_equal(v,w)", rnd2="np.round(v,1)", r_="np.r_[v,w]", c_="np.c_[v,w]", s_="A[np.s_[0,:]]", mgr="np.mgrid[0:2,0:3]", ogr="np.ogrid[0:2,0:3][1]", newax="v[np.newaxis,:]", ix="A[np.ix_([0,1],[0,2])]", tri="np.tri(3)", ones="np.ones(3)*v[0]", full="np.full(3,v[0])", fulll="np.full_like(v,w[0])", fromit="np.fromiter((x for x in v),dtype=float)", apply="np.apply_along_axis(lambda r: r.sum(),1,A)", vec="np.vectorize(lambda x: x+1)(v)", pie="np.piecewise(v,[v<0,v>=0],[lambda x:-x,lambda x:x])", cho="np.choose([0,1,0,1],[v,w])", copyto="cpt(v.copy(),w)", puts="putit(v.copy())", fd2="filld()", mins="np.minimum(v,0)", minr="np.min(A,axis=0)", bl="(v>0)&(w>1)", bl2="~(v>0)", bl3="(v>0)|(w>1)", bl4="(v>0).sum()", bl5="(v>0).astype(int)", bl6="np.count_nonzero(v>0)", i1="int(v[0])", f1="float(v[0])", rou="round(v[0])", dm="divmod(7,2)", tup="tuple(v)", star="list((lambda *a:a)(*v))", unp="(lambda a,b,c,d:[d,c,b,a])(*v)", strd="np.lib.stride_tricks.sliding_window_view(v,2)", hs="np.hsplit(v,2)", vs="np.vsplit(A,2)", ap="np.append(v,1.)", ins="np.insert(v,0,0.)", cpx="(v+1j*w).real", cpx2="np.abs(v+1j*w)", cpx3="(v*np.exp(1j*np.pi/2)).imag", ee="np.einsum('i,i->',v,w)", mxk="max(v,key=lambda x:-x)", red="__import__('functools').reduce(lambda a,b:a+b,v)", acm="list(__import__('itertools').accumulate(v))", tk="np.take_along_axis(A,np.argsort(A,axis=1),axis=1)", lex="np.lexsort((w,v))", uni="np.unique(v)", unin="np.union1d(v,w)", inter="np.intersect1d(v,w)", setd="np.setdiff1d(v,w)", dig="np.digitize(v,[0.,1.,2.])", hist="np.histogram(v,[-5.,0.,5.])[0]", binc="np.bincount([0,1,1])", fft="np.real(np.fft.fft(v))", rfft="np.abs(np.fft.rfft(v))", ifft="np.real(np.fft.ifft(np.fft.fft(v)))", irfft="np.fft.irfft(np.fft.rfft(v))", fftf="np.fft.fftfreq(4)", conv="np.convolve(v,w,mode='full')", hann="np.hanning(5)*v[0]", logsp="np.logspace(0,2,3)", geo="np.geomspace(1,4,3)", inv="np.linalg.inv(np.array([[2.,0.],[0.,4.]]))", bt="np.broadcast_to(v,(2,4)).sum()", rot="np.roll(v,-1)", isc="np.isscalar(v[0])", nanm="np.nanmean(v)", hst="np.hstack((v,[0.]))", stk="np.stack((v,w),axis=1)", npf="np.float64(v[0])+1", npi="np.int64(3)*v[0]", wsum="np.average(v,weights=w)", lnn="np.array([v[0],v[1]])", lnn2="np.array([[v[0],0],[0,v[1]]])", cc="np.concatenate([v[None,:],w[None,:]],axis=0)", am2="np.argmax(v)", am3="np.argsort(v)[::-1]", a2="np.atleast_2d(v).T", dst="np.sqrt(((A[:,None,:]-B[None,:,:])**2).sum(-1))", hyp="np.hypot(v,w)", sgn="np.sign(v)", swp="swap(v.copy())")
def cases(tier):
    return [dict(f=n) for n in E]
def run(S,case):
    np_=S.mod("aspsim.utilities").np
    cnt=[0]
    base=dict(A=np.array([[1.,-2.,3.],[0.5,4.,-6.]]),B=np.array([[2.,5.,-1.],[1.5,0.25,2.]]),v=np.array([3.,1.,2.,-4.]),w=np.array([1.,2.,0.5,2.]))
    def real(x):
        cnt[0]+=1
        r=S.real("x%d"%cnt[0],-100,100)
        S.assume(r==float(x))
        return r
    def conv(x):
        o=np.empty(x.shape,dtype=object)
        for i in np.ndindex(*x.shape): o[i]=real(x[i])
        return S.array(o) if S.symbolic else np.array(o.tolist(),dtype=float).reshape(o.shape)
    def env(np):
        def iadd(a,b):
            a=a.copy(); a+=b; a*=2; a[1:]-=1; return a
        def setit(a,k,x): a[k]=x; return a
        def cpt(a,b): np.copyto(a,b); return a
        def putit(a): np.put(a,[0,1],[9.,8.]); return a
        def filld():
            a=np.zeros((2,2)); np.fill_diagonal(a,1.); return a
        def swap(a): a[0],a[1]=a[1],a[0]; return a
        return dict(iadd=iadd,setit=setit,cpt=cpt,putit=putit,filld=filld,swap=swap,np=np)
    want=eval(E[case["f"]],dict(env(np),**base))
    got=eval(E[case["f"]],dict(env(np_),**{k:conv(x) for k,x in base.items()}))
    def cmp(g,w):
        if isinstance(w,(tuple,list)):
            S.check("len",len(g)==len(w),"%s"%(g,)); [cmp(p,q) for p,q in zip(g,w)]; return
        w=np.asarray(w)
        S.check("shape",tuple(S.np.shape(g))==w.shape,"%s %s"%(S.np.shape(g),w.shape))
        if w.dtype==bool:
            for x,y in zip(S.np.asarray(g).reshape(-1),w.reshape(-1)): S.check("bool",x if y else S.not_(x))
        else:
            S.eq("val",S.array(g) if not isinstance(g,(float,int)) else g,w)
    cmp(got,want)
