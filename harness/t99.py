"""Every numpy function the stand-in claims to know, against numpy itself on one argument tuple."""
import numpy as np
ID = "T99"      # self-test of the numpy stand-in: `./check T99 quick`; not a registered check
BOUNDS = "one fixed argument tuple per function"
STUBS = "none"
A=np.array([[1.,-2.,3.],[0.5,4.,-6.]]); B=np.array([[2.,5.,-1.],[1.5,0.25,2.]]); v=np.array([3.,1.,2.,-4.]); w=np.array([1.,2.,0.5,2.])
T=dict(vstack=[([A,B],)],hstack=[([A,B],)],dstack=[([A,B],)],column_stack=[([v,w],)],stack=[([A,B],)],tile=[(v,2)],repeat=[(v,2),(A,2,1)],outer=[(v,w)],inner=[(v,w),(A,B)],vdot=[(v,w)],tensordot=[(A,B.T,1),(A,B,([1],[1])),(A,B)],kron=[(A,B),(v,w)],cross=[(A,B),(np.array([1.,2.,3.]),A)],split=[(v,2)],array_split=[(v,3)],take=[(v,[0,2]),(A,[1],1)],roll=[(v,1),(A,1,1)],flip=[(v,),(A,1)],fliplr=[(A,)],flipud=[(A,)],rot90=[(A,)],pad=[(v,2),(v,(1,2))],delete=[(v,1),(A,1,0)],insert=[(v,1,5.)],append=[(v,w)],trace=[(A,)],diag=[(v,),(A,)],diagonal=[(A,)],tril=[(A,)],triu=[(A,)],cumsum=[(v,),(A,1)],cumprod=[(v,)],prod=[(v,),(A,0)],diff=[(v,)],ediff1d=[(v,)],gradient=[(v,)],trapezoid=[(v,)],interp=[(1.5,[0.,1.,2.,3.],v)],polyval=[(v,2.)],ptp=[(v,)],amax=[(v,)],amin=[(A,0)],nanmax=[(v,)],nansum=[(v,)],nanmean=[(v,)],var=[(v,)],std=[(v,)],median=[(v,)],sign=[(v,)],square=[(v,)],hypot=[(v,w)],heaviside=[(v,1.)],clip=[(v,-1,1)],fmax=[(v,w)],fmin=[(v,w)],maximum=[(v,w)],minimum=[(v,w)],floor=[(v,)],ceil=[(v,)],rint=[(v,)],trunc=[(v,)],fix=[(v,)],floor_divide=[(v,w)],remainder=[(v,w)],fmod=[(v,w)],divmod=[(v,w)],modf=[(v,)],reciprocal=[(v,)],power=[(v,2)],float_power=[(v,2)],negative=[(v,)],positive=[(v,)],add=[(v,w)],subtract=[(v,w)],multiply=[(v,w)],true_divide=[(v,w)],copysign=[(v,w)],fabs=[(v,)],isnan=[(v,)],isfinite=[(v,)],isinf=[(v,)],logical_and=[(v>0,w>1)],logical_or=[(v>0,w>1)],logical_not=[(v>0,)],equal=[(v,w)],not_equal=[(v,w)],less=[(v,w)],greater_equal=[(v,w)],where=[(v>0,v,w)],argwhere=[(v>0,)],nonzero=[(v>0,)],flatnonzero=[(v>0,)],extract=[(v>0,v)],compress=[([True,False,True,True],v)],select=[([v>0,v<0],[v,w])],piecewise=[],choose=[],argmax=[(v,)],argmin=[(v,)],argsort=[(v,)],sort=[(v,)],lexsort=[],partition=[(v,2)],unique=[(v,)],isin=[(v,[1.,2.])],count_nonzero=[(v,)],searchsorted=[([0.,1.,2.],v)],convolve=[(v,w),(v,w,'valid'),(v,w,'same')],correlate=[(v,w)],dot=[(v,w),(A,B.T)],matmul=[(A,B.T)],einsum=[('ij,kj->ik',A,B),('ij,ij',A,B),('ij,ij->j',A,B),('ij->ji',A),('ij,j->i',A,np.array([1.,2.,3.]))],moveaxis=[(A,0,1)],swapaxes=[(A,0,1)],transpose=[(A,)],squeeze=[(A[:,:1],)],expand_dims=[(v,0)],atleast_1d=[(v,)],atleast_2d=[(v,)],atleast_3d=[(v,)],ravel=[(A,)],reshape=[(A,(3,2))],broadcast_to=[(v,(2,4))],broadcast_arrays=[(v,A[:,:1])],meshgrid=[(v,w)],block=[([[A,B]],)],zeros_like=[(v,)],ones_like=[(v,)],full_like=[(v,2.)],empty_like=[],nan_to_num=[(v,)],average=[(v,)],apply_along_axis=[],fromiter=[],array_equal=[(v,w)],allclose=[(v,w)],isclose=[(v,w)],all=[(v>0,)],any=[(v>0,)],sum=[(v,),(A,1)],mean=[(v,),(A,1)],cov=[],deg2rad=[(v,)],radians=[(v,)],rad2deg=[(v,)],linspace=[(1.,5.,5)],arange=[(0.,2.,.5)],sqrt=[(w,)],concatenate=[((v,w),)],ascontiguousarray=[(A,)],asarray=[(A,)],array=[(A,)],copy=[(A,)],putmask=[],copyto=[],put=[],place=[],resize=[(v,(2,2))],ix_=[],triu_indices=[],ceil_=[],nanmin=[(v,)],nanstd=[(v,)],percentile=[(v,50)],quantile=[(v,.25)],array2string=[],rollaxis=[(A,1)],hanning=[],vectorize=[],frompyfunc=[],asfarray=[],trim_zeros=[(v,)],sum_=[],isreal=[(v,)],iscomplexobj=[(v,)],isrealobj=[(v,)],conj=[(v,)],conjugate=[(v,)],angle=[(v,)],real=[(v,)],imag=[(v,)],may_share_memory=[],shares_memory=[],signbit=[(v,)],log1p=[(w,)])
def cases(tier):
    return [dict(f=n,i=i) for n in T for i in range(len(T[n])) if hasattr(np,n)]
def run(S,case):
    a=T[case["f"]][case["i"]]
    cnt=[0]
    def real(x):
        cnt[0]+=1
        r=S.real("x%d"%cnt[0],-100,100)
        S.assume(r==float(x))
        return r
    def conv(x):
        if isinstance(x,np.ndarray):
            if x.dtype==bool:
                return S.array(np.array([real(1. if t else -1.) for t in x.reshape(-1)],dtype=object).reshape(x.shape))>0
            o=np.empty(x.shape,dtype=object)
            for i in np.ndindex(*x.shape): o[i]=real(x[i])
            return S.array(o) if S.symbolic else np.array(o.tolist(),dtype=float).reshape(o.shape)
        if isinstance(x,(list,tuple)) and x and isinstance(x[0],(np.ndarray,list)): return type(x)(conv(i) for i in x)
        return x
    want=getattr(np,case["f"])(*a)
    got=getattr(S.mod("aspsim.utilities").np,case["f"])(*[conv(x) for x in a])
    def cmp(g,w):
        if isinstance(w,(tuple,list)):
            S.check("len",len(g)==len(w)); [cmp(p,q) for p,q in zip(g,w)]; return
        w=np.asarray(w)
        S.check("shape",tuple(S.np.shape(g))==w.shape,"%s %s"%(S.np.shape(g),w.shape))
        if w.dtype==bool:
            for x,y in zip(S.np.asarray(g).reshape(-1),w.reshape(-1)): S.check("bool",x if y else S.not_(x))
        else:
            S.eq("val",S.array(g) if not isinstance(g,(float,int)) else g,w)
    cmp(got,want)
