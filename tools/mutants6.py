"""Changes of the bundled search (C23)."""
M = []


def m(id, checks, file, old, new):
    M.append(dict(id=id, prop=checks.split()[0], checks=checks, file=file, old=old, new=new))


F = "genex/lib/trillionDTW.cpp"
m("f23-abandon", "C23", F, "if (i+r < m-1 && min_cost + cb[i+r+1] >= bsf)", "if (i+r < m-1 && min_cost + cb[i+r] >= bsf)")
m("f23-band-edge", "C23", F, "if ((i-1<0)||(k+1>2*r))   x = INF_TRILLION;", "if ((i-1<0)||(k+1>=2*r))   x = INF_TRILLION;")
m("f23-no-left", "C23", F, "if ((j-1<0)||(k-1<0))     y = INF_TRILLION;", "if ((j-1<0)||(k-1<=0))     y = INF_TRILLION;")
m("f23-kim-back", "C23", F, "    d = min(d, dist(y1,q[len-2]));\n", "")
m("f23-kim-third", "C23", F, "    d = min(d, dist(x2,q[0]));\n", "")
m("f23-cb-order", "C23", F, '''            d = dist(x,lo[i]);
        lb += d;
        cb[order[i]] = d;''', '''            d = dist(x,lo[i]);
        lb += d;
        cb[i] = d;''')
m("f23-keogh2-mean", "C23", F, "ll = (l[order[i]]-mean)/std;", "ll = l[order[i]]/std;")
m("f23-chunk-location", "C23", F, "loc = (it)*(EPOCH-m+1) + i-m+1;", "loc = (it)*(EPOCH-m) + i-m+1;")
m("f23-chunk-sums", "C23", F, "            ex=0; ex2=0;\n", "")
m("f23-chunk-overlap", "C23", F, "buffer[k] = buffer[EPOCH-m+1+k];", "buffer[k] = buffer[EPOCH-m+k];")
m("f23-last-chunk", "C23", F, "            if (ep<EPOCH)\n                done=true;", "            if (ep<=EPOCH)\n                done=true;")
m("f23-deviation", "C23", F, "                    std = ex2/m;\n                    std = sqrt", "                    std = ex2/(m-1);\n                    std = sqrt")
m("f23-circular", "C23", F, "t[(i%m)+m] = d;", "t[(i%m)+m-1] = d;")
m("f23-envelope", "C23", F, "lower_upper_lemire(buffer, ep, r, l_buff, u_buff);", "lower_upper_lemire(buffer, ep, r / 2, l_buff, u_buff);")
m("f23-query-envelope", "C23", F, "lower_upper_lemire(q, m, r, l, u);", "lower_upper_lemire(q, m, r ? r - 1 : 0, l, u);")
m("f23-first-best", "C23", F, "                                    bsf = dist;\n", "                                    bsf = min(bsf, dist * 0.9);\n")
m("f23-square-root", "C23", F, 'cout << "Distance : " << sqrt(bsf) << endl;', 'cout << "Distance : " << bsf << endl;')
m("f23-cumulative", "C23", F, '''                                    for(k=m-2; k>=0; k--)
                                        cb[k] = cb[k+1]+cb1[k];''', '''                                    for(k=m-2; k>=0; k--)
                                        cb[k] = cb[k+1]+cb1[k+1];''')
m("f23-obsolete", "C23", F, "ex2 -= t[j]*t[j];", "ex2 -= d*d;")
m("f23-kim-short", "C23", F, "if (lb >= bsf || len < 6)   return lb;", "if (lb >= bsf || len < 5)   return lb;")
m("f23-lemire", "C23 C07", F, "if (i-dl.front() >= 2*r + 1)", "if (i-dl.front() > 2*r + 1)")
