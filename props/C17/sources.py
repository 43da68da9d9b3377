import itertools
R=["RM","RQ","RN","RA","RB","RF","RMm","RQm","RMf","RQf","RAf","RQb"]; T=["TM","TQ","TN","TMf","TQf","TMm","TQb"]
files={}
pairs=[("BaseR",a,b) for i,a in enumerate(R) for j,b in enumerate(R) if (i+j)%3==0 or (i<6 and j<6 and (i*j)%2==0) or a==b]
pairs+=[("BaseT",a,b) for i,a in enumerate(T) for b in T]
pairs+=[("BaseR",a,b) for a in ["RMs","RQs","RAs"] for b in ["RMs","RQs","RAs"]]+[("BaseT",a,b) for a in ["TMs","TQs"] for b in ["TMs","TQs"]]
vec=[]
for k in "PWO":
    vec+=[("BaseV",a,b) for a in ["V"+k,"V"+k+"m","V"+k+"f"] for b in ["V"+k,"V"+k+"m","V"+k+"f"]]
vec+=[("BaseX",a,b) for a in ["XX","XXm","XXf"] for b in ["XX","XXm","XXf"]]+[("BaseX","XXs","XXs"),("BaseS","SS","SS"),("BaseS","SSs","SSs")]
vec+=[("BaseV","Vs<wave::%s>"%t,"Vs<wave::%s>"%t) for t in ["Translation","RelativeRotation","Point"]]
n=7
for i in range(n):
    open("pairs%d.cpp"%i,"w").write('#include "approx.hpp"\n'+"".join("AP_PAIR(%s, %s, %s)\n"%p for p in pairs[i::n]))
z=[("BaseV","V"+k+m) for k in "PWO" for m in ["","m","f"]]+[("BaseX","XX"),("BaseX","XXm"),("BaseX","XXf"),("BaseX","XXs"),("BaseS","SS"),("BaseS","SSs")]+[("BaseV","Vs<wave::%s>"%t) for t in ["Translation","RelativeRotation","Point"]]
open("vectors.cpp","w").write('#include "approx.hpp"\n'+"".join("AP_PAIR(%s, %s, %s)\n"%p for p in vec)+"".join("AP_ZERO(%s, %s)\n"%p for p in z))
print(len(pairs),len(vec),len(z))
