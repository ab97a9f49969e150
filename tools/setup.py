import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import components
for step in components.SETUP:
    try:
        step()
    except components.NoVerdict as e:
        print(e)
        sys.exit(1)
