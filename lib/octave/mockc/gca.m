function h = gca()
h = 7 ;
