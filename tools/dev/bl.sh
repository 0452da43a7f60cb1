cd /repo; git blame -s $1 -L $2,$3 | awk '{o=(index($1,"^")==1)?"  ":"* "; print o substr($0, index($0," ")+1)}' | sed 's/^\(..\)\s*/\1/'
