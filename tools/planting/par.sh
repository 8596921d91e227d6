# full validation of all, 6 at a time
python3 -c "
import runpy,sys
print('\n'.join(runpy.run_path('$1')['BUGS']))" | xargs -P 6 -I{} python3 plant.py $1 {} > val-$1.log 2>&1
