#!/usr/bin/env python3
import sys; sys.path.insert(0, __file__.rsplit('/', 1)[0] + '/engine')
import driver; sys.exit(driver.main(sys.argv[1:]))
