#!/bin/bash
exec bash /verif/check.sh build
