function d = guidata(h, x)
global PROPS
if nargin == 2, PROPS.data = x ; end
d = PROPS.data ;
