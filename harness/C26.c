// Column order of the canonical form: comparison is exact lexicographic order, an exchange swaps exactly two columns.
#include <string.h>
#include "ai.h"
#include "LESS.h"
#include "codes.h"
int lex_compare_with_pivot(normalized_IS_t*V,const POSITION_T col_idx,FQ_ELEM pivot[K]);
void column_swap(normalized_IS_t*V,const POSITION_T col1,const POSITION_T col2);
static void one(normalized_IS_t*V,int c,FQ_ELEM*p,FQ_ELEM v,FQ_ELEM w){
  if(v<w) ai_prove(lex_compare_with_pivot(V,c,p)==1,"1 if the pivot is greater in the first differing row"); else if(v>w) ai_prove(lex_compare_with_pivot(V,c,p)==-1,"-1 if the pivot is smaller in the first differing row"); }
void ai_main(void){
#ifdef P_CMP
  static const int cols[]={0,1,(N-K)/2,N-K-1};
  // every input belongs to exactly one class: the columns first differ in row j (j=K: they are equal)
  for(int j=0;j<=K;j++) for(int t=0;t<4;t++){ if(t!=j%4&&j!=0&&j<K-1) continue;
    normalized_IS_t*V=ai_object(sizeof*V,"V"); FQ_ELEM*p=ai_object(K,"pivot column"),v=ai_u64("entry",0,Q-1),w=ai_u64("pivot entry",0,Q-1); ai_fresh(V,sizeof*V,"other entry",1,0,Q-1,0); ai_fresh(p,K,"pivot",1,0,Q-1,0);
    for(int i=0;i<j;i++) V->values[i][cols[t]]=p[i];
    if(j<K){ V->values[j][cols[t]]=v; p[j]=w; } ai_readonly(V,1); ai_readonly(p,1);
    if(j==K){ ai_prove(lex_compare_with_pivot(V,cols[t],p)==0,"equal columns compare as equal"); ai_reach("comparison"); continue; }
    one(V,cols[t],p,v,w); ai_reach("comparison"); }
#endif
#ifdef P_SWAP
  static const int pr[][2]={{0,1},{1,0},{0,N-K-1},{N-K-1,N-K-2},{3,(N-K)/2},{5,5}};
  normalized_IS_t*V=ai_object(sizeof*V,"V"),*O=ai_object(sizeof*O,"before"); ai_fresh(V,sizeof*V,"entry",1,0,Q-1,0);
  for(int t=0;t<6;t++){ int a=pr[t][0],b=pr[t][1]; memcpy(O,V,sizeof*V); column_swap(V,a,b); for(int r=0;r<K;r++){ FQ_ELEM x=O->values[r][a]; O->values[r][a]=O->values[r][b]; O->values[r][b]=x; }
    ai_prove_eq(V,O,sizeof*V,"exactly the two columns are exchanged"); ai_reach("exchange"); }
#endif
}
