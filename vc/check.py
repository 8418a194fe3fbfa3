import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.modules.setdefault('driver', __import__('driver'))
import driver
sys.exit(driver.main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')))
