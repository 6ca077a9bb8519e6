function hold(s)
global HOLD
HOLD = strcmp(s, 'on') ;
