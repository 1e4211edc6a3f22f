import subprocess,sys
h,prop,run=sys.argv[1],sys.argv[2],int(sys.argv[3])
def rp(frm,run):
    open('/tmp/b/x.replay','w').write(f"sim-replay 1\nproperty {prop}\nharness {h}\nseed 1\nrun {run}\nclass x\nmessage x\nloghash 0\nkind prefix\nfrom {frm}\nW \nS \nF \ntrace\n")
    return subprocess.run(['/tmp/b/'+h,'replay','/tmp/b/x.replay'],capture_output=True,text=True).stdout.splitlines()
a=rp(run,run); b=rp(run//128*128,run)
print(len(a),len(b))
for i,(x,y) in enumerate(zip(a,b)):
    if x!=y:
        print(i); print('\n'.join(a[max(0,i-12):i+4])); print('---'); print('\n'.join(b[max(0,i-12):i+4])); break
