function h = gcbo()
h = 7 ;
