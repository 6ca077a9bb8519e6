function s_roc_plot(thorough)
% the four variants of the plot and of the area under it, and the curves drawn
global DRAWN
addpath(fullfile(fileparts(mfilename('fullpath')), 'mock')) ;
V = {'tntp', 'fptp', 'tptn', 'fpfn', ''} ;
for n=0:3+thorough
  C = rk_cases(n) ; L = oc_all(3,n) - 1 ;
  for a=1:size(C,1)
    for b=1:size(L,1)
      s = C(a,:) ; l = L(b,:) ; r = rk_ref(l, s, [], [], false) ; m = numel(r.tp) ;
      T = r.tp / max(r.p,1) ; F = r.fp / max(r.n,1) ;
      for v=1:5
        oc_case('vl_roc(%s, %s, ''plot'', ''%s'')', l, s, V{v}) ; oc_op(1) ;
        DRAWN = {} ;
        if v <= 4, [tpr, tnr, info] = vl_roc(l, s, 'plot', V{v}) ; else vl_roc(l, s) ; end
        switch v
          case 1, x = 1-F ; y = T ;
          case {2, 5}, x = F ; y = T ;
          case 3, x = T ; y = 1-F ;
          case 4, x = F ; y = 1-T ;
        end
        k = find(strcmp('plot', cellfun(@(c) c{1}, DRAWN, 'UniformOutput', false))) ;
        oc_check('drawn', ~isempty(k) && oc_near(DRAWN{k(1)}{2}, x) && oc_near(DRAWN{k(1)}{3}, y), 'drawn curve') ;
        if v <= 4
          auc = 0 ; for k=2:m, auc = auc + abs(x(k) - x(k-1)) * (y(k) + y(k-1)) / 2 ; end   % a staircase: no width where the height changes
          oc_check('auc', abs(info.auc - auc) < 1e-9, 'auc %g, expected %g', info.auc, auc) ;
          oc_check('curve', oc_near(tpr, T) && oc_near(tnr, 1-F), 'tpr %s tnr %s', mat2str(tpr,6), mat2str(tnr,6)) ;
          oc_state(v, info.auc, x, y) ;
        end
      end
      DRAWN = {} ; vl_det(l, s) ; vl_pr(l, s) ;
      P = ones(1,m) ; for k=1:m, if r.tp(k)+r.fp(k) > 0, P(k) = r.tp(k) / (r.tp(k)+r.fp(k)) ; end, end
      oc_check('drawn-det', strcmp(DRAWN{1}{1}, 'loglog') && oc_near(DRAWN{1}{2}, F) && oc_near(DRAWN{1}{3}, 1-T), 'curve drawn by vl_det') ;
      oc_check('drawn-pr', strcmp(DRAWN{2}{1}, 'plot') && oc_near(DRAWN{2}{2}, T) && oc_near(DRAWN{2}{3}, P, 1e-7), 'curve drawn by vl_pr') ;
    end
  end
end
