from .run import main
import sys
sys.exit(main())
