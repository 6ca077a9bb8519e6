function oc_op(n)
global OC
OC.ops = OC.ops + n ;
