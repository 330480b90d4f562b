#!/usr/bin/env python
# Parallel programming
# Author: Thamme Gowda [tg (at) isi (dot) edu] 
# Created: 6/13/20


