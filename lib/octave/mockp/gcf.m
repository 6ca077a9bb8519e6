function h = gcf()
h = 7 ;
